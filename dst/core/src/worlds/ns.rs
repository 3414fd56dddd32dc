//! The nameserver program with its zone files, its clients and everything that can
//! happen to them.
use super::clients::*;
use super::life::{self, Life};
use super::zone::{self, Answer, Zone, ZoneOpts};
use crate::case::*;
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use crate::wire::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

const WORLD: u64 = 9 << 56;

pub fn zone_opts(c: &Case) -> ZoneOpts {
    ZoneOpts {
        names: c.p("names", 6) as u64,
        big: c.p("bigzone", 10) as u64,
        mixed_case: c.p("mixed", 1) != 0,
        includes: c.p("includes", 1) != 0,
        max_subs: c.p("subs", 3) as u64,
    }
}

/// A question about (or near) the zone.
pub fn ask(r: &mut Rng, z: &Zone) -> (String, u16) {
    let names = z.names();
    let n = match r.below(20) {
        0 => "other.net.".to_string(),
        1 => ".".to_string(),
        2 => parent(&z.top),
        // Ends like the zone, but not on a label boundary.
        3 => format!("x{}", z.top),
        4 => format!("{}.{}", zone::rnd_label(r, 20), z.top),
        5 => format!("{}.{}", zone::rnd_label(r, 5), r.pick(&names)),
        6 => z.top.clone(),
        7..=10 if !z.subs.is_empty() => {
            let s = &z.subs[r.below(z.subs.len() as u64) as usize];
            match r.below(4) {
                0 => s.name.clone(),
                1 => format!("x{}", s.name),
                2 if !s.glue.is_empty() => r.pick(&s.glue).name.clone(),
                _ => format!("{}.{}", zone::rnd_label(r, 8), s.name),
            }
        }
        _ => r.pick(&names).clone(),
    };
    let n = if n != "." && r.below(16) == 0 { zone::stretch(r, &n) } else { n };
    let n = zone::rnd_case(r, &n);
    // Mostly types the name has.
    let has: Vec<u16> = z.recs.iter().filter(|x| lower(&x.name) == lower(&n)).map(|x| x.ty).collect();
    let ty = if !has.is_empty() && r.below(4) > 0 { *r.pick(&has) } else { *r.pick(KNOWN) };
    if n.len() > 254 {
        return (z.top.clone(), ty);
    }
    (n, ty)
}

pub fn generate(profile: &str, seed: u64) -> Case {
    let mut rr = Rng::new(hash2(seed, hash_bytes(7, profile.as_bytes())));
    let r = &mut rr;
    let mut c = Case { scenario: "ns".into(), profile: profile.into(), seed, ..Default::default() };
    c.set("zone_seed", r.below(1 << 40) as i64);
    c.set("names", r.range(1, 8) as i64);
    c.set("bigzone", if profile == "big" { 60 } else { *r.pick(&[0, 10]) });
    c.set("subs", *r.pick(&[0, 1, 3]));
    c.set("udp_threads", *r.pick(&[1, 1, 2, 3, 5]));
    c.set("tcp_threads", *r.pick(&[1, 1, 2, 3, 5]));
    c.set("read_s", r.range(1, 3) as i64);
    c.set("write_s", r.range(1, 3) as i64);
    c.set("log", r.below(5) as i64);
    c.set("sndcap", *r.pick(&[87_380, 87_380, 70_000, 4096, 200, 30]));
    c.set("lat_us", *r.pick(&[1, 100, 500, 20_000]));
    c.set("wild", (r.below(4) == 0) as i64);
    gen_v6(r, &mut c);
    if c.p("lat_us", 0) > 400 && c.p("sndcap", 0) < 1000 {
        // Large answers would take minutes.
        c.set("sndcap", 4096);
    }
    let z = zone::generate(c.p("zone_seed", 0) as u64, &zone_opts(&c));
    let x = match profile {
        "mix" => Mix { n: r.range(4, 40), span_us: *r.pick(&[1000, 50_000, 3_000_000]), tcp: 35, hostile: 12, stall: 12, clients: r.range(1, 12), read_s: c.p("read_s", 1) as u64 },
        "hostile" => Mix { n: r.range(4, 60), span_us: *r.pick(&[1000, 50_000, 1_000_000]), tcp: *r.pick(&[0, 30, 60]), hostile: *r.pick(&[60, 90]), stall: 20, clients: r.range(1, 12), read_s: c.p("read_s", 1) as u64 },
        "tcp" => Mix { n: r.range(3, 30), span_us: *r.pick(&[1000, 50_000, 3_000_000]), tcp: 80, hostile: 5, stall: *r.pick(&[0, 30, 70]), clients: r.range(1, 12), read_s: c.p("read_s", 1) as u64 },
        "big" => Mix { n: r.range(6, 40), span_us: *r.pick(&[1000, 50_000, 3_000_000]), tcp: 50, hostile: 0, stall: 5, clients: r.range(1, 12), read_s: c.p("read_s", 1) as u64 },
        // Many more requests at once than there are workers.
        // Thousands of requests wait for a thread.
        "flood" if r.below(10) == 0 => {
            c.set("udp_cap", 5000);
            Mix { n: r.range(1000, 3000), span_us: *r.pick(&[4, 1000]), tcp: *r.pick(&[0, 3]), hostile: 2, stall: 0, clients: r.range(10, 200), read_s: c.p("read_s", 1) as u64 }
        }
        "flood" => Mix { n: r.range(70, 300), span_us: *r.pick(&[4, 1000, 50_000]), tcp: *r.pick(&[0, 30, 100]), hostile: 2, stall: *r.pick(&[0, 3]), clients: r.range(10, 200), read_s: c.p("read_s", 1) as u64 },
        _ => Mix { n: r.range(2, 20), span_us: 20_000, tcp: 50, hostile: 30, stall: 30, clients: r.range(1, 12), read_s: c.p("read_s", 1) as u64 },
    };
    if profile == "flood" {
        c.set("udp_threads", *r.pick(&[1, 1, 2, 4, 10, 40]));
        c.set("tcp_threads", *r.pick(&[1, 1, 2, 4, 10, 40]));
    }
    c.ops = generate_ops(r, &x, &mut |r| ask(r, &z));
    for o in c.ops.iter_mut().filter(|_| x.hostile > 0) {
        // Sometimes an unreadable number of the same.
        if r.below(40) == 0 {
            o["noread"] = json!(true);
        }
    }
    sched_rates(r, &mut c);
    net_rates(r, &mut c);
    if profile != "big" || r.below(2) == 0 {
        os_rates(r, &mut c);
    }
    if r.below(12) == 0 {
        c.set("max_fds", r.range(8, 14) as i64);
    }
    quiet(r, &mut c, &[7, 100, 4000, 100_000]);
    if profile == "flood" {
        // So that the queues do fill up.
        c.rate("stall", *r.pick(&[0, 2_000, 20_000, 200_000]));
    }
    c
}

/// Sometimes nothing happens for a long time before the last requests.
pub fn quiet(r: &mut Rng, c: &mut Case, v: &[i64]) {
    if r.below(5) == 0 {
        let q = *r.pick(v);
        c.set("quiet_s", q);
        c.set("horizon_ms", c.p("horizon_ms", 600_000) + q * 1000);
    }
}

/// The log level (times 8) and trace settings of a variant of a case.
pub fn variant(c: &Case) -> Option<i64> {
    (c.p("variants", 1) > 1).then(|| c.p(&format!("variant_{}", c.p("variant", 0)), 0))
}

/// Makes a case one whose variants are comparable: nothing may depend on how many calls
/// and allocations are made for the log.
pub fn comparable(r: &mut Rng, c: &mut Case) {
    for n in ["preempt", "alloc_preempt", "spurious_wakeup", "stall", "clock_jump"] {
        c.rate(n, 0);
    }
    c.set("tick_ns", 0);
    c.set("wall_jumps", 0);
    c.set("variants", 3);
    // Bits 0 to 2: silent, verbose, colour.
    c.set("variant_0", 1);
    c.set("variant_1", (r.range(2, 4) * 8 + *r.pick(&[0, 2, 4, 6, 6])) as i64);
    c.set("variant_2", (r.below(5) * 8 + r.below(8)) as i64);
    c.rate("output_err", *r.pick(&[0, 0, 10_000, 300_000, 1_000_000]));
}

pub fn generate_diff(seed: u64) -> Case {
    let mut rr = Rng::new(hash2(seed, 31));
    let r = &mut rr;
    let p = *r.pick(&["mix", "hostile", "big", "tcp", "load", "load"]);
    let mut c = if p == "load" { generate_load(*r.pick(&["io", "bytes", "invalid"]), seed) } else { generate(p, seed) };
    c.scenario = if p == "load" { "zonediff" } else { "nsdiff" }.into();
    comparable(r, &mut c);
    c
}

/// Lines that no zone file may have.
const BAD_LINES: [&str; 10] = [
    "zz 300 IN A 999.1.1.1",
    "zz 300 IN A 1.2.3",
    "zz 300 IN BOGUS a.b.",
    "zz 300 IN MX ten mail",
    "zz 300 IN A",
    "zz 300 IN NS",
    "zz 300 IN TXT",
    "$INCLUDE /sim/does-not-exist",
    "zz 300 IN TXT ( \"never closed\"",
    "zz 300 IN TXT \"never closed",
];

/// Loading the files while reads fail, or when their contents are damaged.
pub fn generate_load(profile: &str, seed: u64) -> Case {
    let mut rr = Rng::new(hash2(seed, hash_bytes(23, profile.as_bytes())));
    let r = &mut rr;
    let mut c = Case { scenario: "zoneload".into(), profile: profile.into(), seed, ..Default::default() };
    c.set("zone_seed", r.below(1 << 40) as i64);
    c.set("names", r.range(1, 8) as i64);
    c.set("bigzone", *r.pick(&[0, 10, 60]));
    c.set("subs", *r.pick(&[0, 1, 3]));
    c.set("read_s", 2);
    c.set("write_s", 2);
    c.set("lat_us", 1);
    c.set("sndcap", 87_380);
    c.set("log", r.below(5) as i64);
    let z = zone::generate(c.p("zone_seed", 0) as u64, &zone_opts(&c));
    let files = 1 + z.files.len() as u64;
    match profile {
        "io" => {
            c.rate("file_short_read", *r.pick(&[0, 100_000, 1_000_000]));
            c.rate("file_eintr", *r.pick(&[0, 50_000, 300_000]));
            let few = *r.pick(&[3_000, 20_000]);
            match r.below(6) {
                0 => {}
                1 => c.rate("open_err", 300_000),
                2 => c.rate("read_err", 200_000),
                3 => c.rate("read_err", few),
                4 => {
                    c.rate("open_err", 50_000);
                    c.rate("read_err", few);
                }
                _ => c.ops.push(json!({"ev": "damage", "kind": "missing", "file": r.below(files)})),
            }
        }
        "invalid" => c.ops.push(json!({"ev": "damage", "kind": "badline", "file": r.below(files), "at": r.below(3), "val": r.below(BAD_LINES.len() as u64)})),
        _ => {
            for _ in 0..*r.pick(&[1, 1, 2, 5]) {
                c.ops.push(json!({"ev": "damage", "kind": *r.pick(&["flip", "flip", "set", "cut", "copy", "drop"]), "file": if r.below(5) == 0 { 0 } else { r.below(files) }, "at": r.below(100_000), "val": if r.below(2) == 0 { r.below(256) } else { *r.pick(b"()\"\\;@.$ \n\r\t\0") as u64 }}));
            }
            c.rate("file_short_read", *r.pick(&[0, 100_000]));
        }
    }
    // Questions about everything in the zone.
    let mut qs: Vec<(String, u16)> = z.recs.iter().map(|x| (x.name.clone(), x.ty)).collect();
    for s in &z.subs {
        qs.push((s.name.clone(), NS));
        qs.push((format!("x.{}", s.name), A));
    }
    qs.sort();
    qs.dedup();
    r.shuffle(&mut qs);
    qs.truncate(40);
    for _ in 0..4 {
        qs.push(ask(r, &z));
    }
    for (i, (n, ty)) in qs.iter().enumerate() {
        let m = Msg::query(i as u16 + 1, n, *ty, false).encode(false);
        c.ops.push(json!({"t": i as u64 * 200, "cl": i % 9, "tcp": true, "hex": hex(&m), "what": format!("{} {}", n, ty)}));
    }
    c.rate("preempt", *r.pick(&[0, 50_000]));
    c
}

/// Start-up failures.
pub fn generate_life(profile: &str, seed: u64) -> Case {
    let mut rr = Rng::new(hash2(seed, hash_bytes(17, profile.as_bytes())));
    let r = &mut rr;
    let mut c = Case { scenario: "nslife".into(), profile: profile.into(), seed, ..Default::default() };
    c.set("zone_seed", r.below(1 << 40) as i64);
    c.set("names", r.range(1, 4) as i64);
    c.set("bigzone", *r.pick(&[0, 10]));
    c.set("subs", *r.pick(&[0, 1]));
    c.set("write_s", r.range(1, 3) as i64);
    c.set("log", r.below(5) as i64);
    c.set("wild", (r.below(4) == 0) as i64);
    gen_v6(r, &mut c);
    let z = zone::generate(c.p("zone_seed", 0) as u64, &zone_opts(&c));
    life::generate(r, &mut c, 0, &mut |r| ask(r, &z));
    c
}

pub fn sched_rates(r: &mut Rng, c: &mut Case) {
    c.rate("preempt", *r.pick(&[0, 20_000, 120_000, 350_000]));
    c.rate("alloc_preempt", *r.pick(&[0, 0, 3_000, 30_000]));
    c.rate("pick", *r.pick(&[0, 100_000, 500_000]));
    c.rate("wake_order", 300_000);
    c.rate("spurious_wakeup", *r.pick(&[0, 0, 20_000]));
    c.rate("stall", *r.pick(&[0, 0, 0, 2_000, 20_000]));
}
pub fn net_rates(r: &mut Rng, c: &mut Case) {
    let on = r.below(3) > 0;
    let mut f = |c: &mut Case, n: &str, v: &[u32]| c.rate(n, if on { *r.pick(v) } else { 0 });
    f(c, "udp_loss", &[0, 20_000, 150_000]);
    f(c, "udp_dup", &[0, 20_000, 150_000]);
    f(c, "udp_delay", &[0, 100_000, 500_000]);
    f(c, "tcp_delay", &[0, 100_000, 500_000]);
    f(c, "tcp_split", &[0, 300_000]);
}
pub fn os_rates(r: &mut Rng, c: &mut Case) {
    let short = r.below(2) == 0;
    if short {
        c.rate("short_read", *r.pick(&[0, 100_000, 600_000]));
        c.rate("short_write", *r.pick(&[0, 100_000, 600_000]));
        c.rate("eintr", *r.pick(&[0, 30_000, 200_000]));
    }
    if r.below(3) == 0 {
        for n in ["dup_err", "accept_err", "send_err", "recv_err", "setsockopt_err"] {
            c.rate(n, *r.pick(&[0, 0, 20_000, 100_000]));
        }
    }
}

pub fn log_level(c: &Case) -> &'static str {
    if let Some(o) = variant(c) {
        return ["error", "warn", "info", "debug", "trace"][o as usize / 8 % 5];
    }
    ["error", "warn", "info", "debug", "trace", "off"][c.p("log", 1) as usize % 6]
}

/// The address that clients use, and the one that is configured.
pub fn server_ips(c: &Case, tcp: bool) -> (u32, Addr) {
    let port = c.p(if tcp { "tcp_port" } else { "udp_port" }, 53) as u16;
    let bit = if tcp { 2 } else { 1 };
    let (ip, any) = if c.p("v6", 0) & bit != 0 { (V6_HOST, V6_ANY) } else { (HOST_IP, 0) };
    (ip, Addr { ip: if c.p("wild", 0) != 0 { any } else { ip }, port })
}
/// Adds an IPv6 address to some configurations.
pub fn gen_v6(r: &mut Rng, c: &mut Case) {
    if r.below(6) == 0 {
        c.set("v6", *r.pick(&[3, 3, 1, 2]));
        c.set("v6_cl", *r.pick(&[100, 50, 0]));
    }
}

pub fn server_conf(c: &Case) -> (Value, Value) {
    let [u, t] = [false, true].map(|tcp| std::net::SocketAddr::from(server_ips(c, tcp).1).ip().to_string());
    (
        json!({"address": u, "port": c.p("udp_port", 53), "write_timeout": c.p("write_s", 1), "threads": c.p("udp_threads", 2)}),
        json!({"address": t, "port": c.p("tcp_port", 53), "read_timeout": c.p("read_s", 1), "write_timeout": c.p("write_s", 1), "threads": c.p("tcp_threads", 2)}),
    )
}

/// Probes of how many requests each server handles at once.
#[derive(Default)]
pub struct Capacity {
    pub step: u32,
    pub t0: u64,
    pub udp_ops: std::ops::Range<usize>,
    pub stalled: Vec<usize>,
    pub a: usize,
    pub b: usize,
    pub u: usize,
    pub p: u64,
    pub noread: Option<usize>,
}

pub struct NsWorld {
    pub c: Clients,
    pub zone: Zone,
    ops: Vec<Value>,
    up: [bool; 2],
    addrs: [Option<Addr>; 2],
    conf_damaged: bool,
    ready: bool,
    phase: u32,
    workload: usize,
    recover: std::ops::Range<usize>,
    cap: Capacity,
    dead: bool,
    udp_threads: usize,
    tcp_threads: usize,
    /// Full record sequences by question (from TCP).
    full: BTreeMap<(String, u16), Vec<Rr>>,
    inflight: i64,
    max_inflight: i64,
    served: u64,
    trunc: Vec<(usize, Msg, usize)>,
    /// Sockets open while nothing is done.
    fds: usize,
    life: Option<Life>,
    loading: bool,
    damage: Vec<Value>,
    damaged: bool,
    must_fail: Option<String>,
    io_errors: u32,
}

impl NsWorld {
    pub fn new(case: &Case) -> NsWorld {
        let zone = zone::generate(case.p("zone_seed", 0) as u64, &zone_opts(case));
        let [u, t] = [false, true].map(|tcp| server_ips(case, tcp)).map(|(ip, a)| Addr { ip, port: a.port });
        let tt = case.p("tcp_threads", 2) as usize;
        let mut c = Clients::new(u, t, tt, case.p("read_s", 1) as u64, case.p("write_s", 1) as u64);
        c.use_v6(case);
        NsWorld {
            c,
            zone,
            ops: case.ops.iter().filter(|o| o["ev"].is_null()).cloned().collect(),
            up: [false; 2],
            addrs: [None; 2],
            conf_damaged: false,
            ready: false,
            phase: 0,
            workload: 0,
            recover: 0..0,
            cap: Capacity::default(),
            dead: false,
            udp_threads: case.p("udp_threads", 2) as usize,
            tcp_threads: tt,
            full: BTreeMap::new(),
            inflight: 0,
            max_inflight: 0,
            served: 0,
            trunc: vec![],
            fds: 0,
            life: Life::new(case),
            loading: matches!(case.scenario.as_str(), "zoneload" | "zonediff"),
            damage: case.ops.iter().filter(|o| o["ev"] == "damage").cloned().collect(),
            damaged: false,
            must_fail: None,
            io_errors: 0,
        }
    }

    fn begin(&mut self, k: &mut Kernel) {
        self.ready = true;
        self.c.base = k.now + 2 * MS;
        // Threads may be late to start.
        self.c.strict_latency = self.life.is_none();
        for o in std::mem::take(&mut self.ops) {
            let i = self.c.add(&o);
            self.c.schedule(k, i);
        }
        self.workload = self.c.ops.len();
        self.phase = 1;
        k.timer(self.c.base, WORLD | 1);
        let last = self.c.settle(k) - 100 * MS;
        k.timer(last + 50 * MS, WORLD | 2);
    }

    fn plain_query(&self, i: u64, ty: u16) -> Vec<u8> {
        Msg::query((100 + i) as u16, &self.zone.top, ty, true).encode(false)
    }

    fn next(&mut self, k: &mut Kernel) {
        let now = k.now;
        if matches!(self.phase, 3 | 4 | 6) && self.c.transferring(k) {
            k.timer(now + 100 * MS, WORLD | self.phase as u64);
            return;
        }
        match self.phase {
            1 => {
                k.ch.faults_on = true;
                self.fds = k.net.open_fds();
                k.probe("workload started");
            }
            2 => {
                k.ch.faults_on = false;
                if self.loading {
                    k.probe("zones served completely");
                    self.phase = 9;
                    k.stop = true;
                    return;
                }
                k.nontrivial = self.served >= 3 && self.max_inflight >= 2;
                let quiet = k.case.p("quiet_s", 0) as u64;
                self.wait(k, 3, 3200 * MS + quiet * SEC);
            }
            3 => {
                // Recovery: well-formed queries on both transports.
                self.c.base = now + MS;
                let a = self.c.ops.len();
                for j in 0..8u64 {
                    let m = self.plain_query(j, *[SOA, NS, A][j as usize % 3..].first().unwrap());
                    let o = json!({"t": (j / 4) * 3000, "cl": 200 + j, "tcp": j % 2 == 1, "hex": hex(&m), "what": "recovery"});
                    let i = self.c.add(&o);
                    self.c.schedule(k, i);
                }
                self.recover = a..self.c.ops.len();
                self.wait(k, 4, 0);
            }
            4 => {
                for o in self.c.ops[self.recover.clone()].to_vec() {
                    if o.replies.is_empty() && (o.tcp || o.queued > 0) {
                        k.violation_all(&["C01", "C02"], "not-recovered", format!("after the faults had stopped, {} got no answer (taken {}, accepted {:?}); panics {:?}", o.brief(), o.taken, o.accepted, k.panics.iter().map(|p| &p.2).take(2).collect::<Vec<_>>()));
                    }
                }
                let n = k.net.open_fds();
                if self.life.is_none() && n > self.fds {
                    k.violation("C02", "sockets-kept", format!("with no request in progress {} sockets are open, {} were when the service started: {}", n, self.fds, k.net.open_brief()));
                }
                self.cap_udp(k);
            }
            5 => self.cap_udp_judge(k),
            6 => self.cap_tcp_judge(k),
            _ => {}
        }
    }

    fn wait(&mut self, k: &mut Kernel, phase: u32, extra: u64) {
        let at = self.c.settle(k).max(k.now) + extra;
        k.timer(at, WORLD | phase as u64);
    }

    fn cap_udp(&mut self, k: &mut Kernel) {
        self.c.base = k.now + MS;
        self.cap.t0 = self.c.base;
        let a = self.c.ops.len();
        for j in 0..2 * self.udp_threads as u64 {
            let m = self.plain_query(50 + j, SOA);
            let i = self.c.add(&json!({"t": 0, "cl": 100 + j, "hex": hex(&m), "what": "capacity"}));
            let ad = self.c.ops[i].addr;
            k.slow_send.insert(ad, 300 * MS);
            self.c.schedule(k, i);
        }
        self.cap.udp_ops = a..self.c.ops.len();
        k.timer(k.now + 1000 * MS, WORLD | 5);
    }

    fn cap_udp_judge(&mut self, k: &mut Kernel) {
        let ops: Vec<Op> = self.c.ops[self.cap.udp_ops.clone()].to_vec();
        let t0 = ops.iter().map(|o| o.first_queued).min().unwrap_or(0);
        let first = ops.iter().filter(|o| o.replies.iter().any(|r| r.at < t0 + 450 * MS)).count();
        let u = self.udp_threads;
        let panics: Vec<String> = k.panics.iter().map(|p| p.2.clone()).take(2).collect();
        if first < u {
            k.violation_all(&["C02", "C19"], "udp-capacity-lost", format!("{} queries at once are handled over UDP although {} threads are configured; panics {:?}", first, u, panics));
        }
        if first > u {
            k.violation("C19", "udp-capacity-exceeded", format!("{} queries at once are handled over UDP although {} threads are configured", first, u));
        }
        k.slow_send.clear();
        k.probe("UDP capacity probes");
        // TCP: all threads but one stall.
        self.c.base = k.now + MS;
        let t = self.tcp_threads;
        let m = self.plain_query(1, SOA);
        for j in 0..t as u64 - 1 {
            let i = self.c.add(&json!({"t": 0, "cl": 100 + j, "tcp": true, "hex": hex(&m), "stop": j % 4, "what": "stalled for the capacity probe"}));
            self.c.schedule(k, i);
            self.cap.stalled.push(i);
        }
        self.cap.a = self.c.add(&json!({"t": 40_000 + 4 * k.net.lat / US, "cl": 150, "tcp": true, "hex": hex(&m), "what": "capacity"}));
        let i = self.cap.a;
        self.c.schedule(k, i);
        // Then one more, and a query that must wait for a free thread.
        let at = 200_000 + 10 * k.net.lat / US;
        let i = self.c.add(&json!({"t": at, "cl": 151, "tcp": true, "hex": hex(&m), "stop": 1, "what": "stalled for the capacity probe"}));
        self.c.schedule(k, i);
        self.cap.stalled.push(i);
        self.cap.b = self.c.add(&json!({"t": at + 50_000 + 4 * k.net.lat / US, "cl": 152, "tcp": true, "hex": hex(&m), "what": "capacity"}));
        let i = self.cap.b;
        self.c.schedule(k, i);
        self.cap.u = self.c.add(&json!({"t": at + 60_000 + 8 * k.net.lat / US, "cl": 153, "hex": hex(&m), "what": "UDP while TCP is stalled"}));
        let i = self.cap.u;
        self.c.schedule(k, i);
        if k.net.sndcap < 40 {
            let at = at + 3 * self.c.read_to / US;
            let i = self.c.add(&json!({"t": at, "cl": 154, "tcp": true, "noread": true, "hex": hex(&m), "what": "never reads its answer"}));
            self.c.schedule(k, i);
            self.cap.noread = Some(i);
        }
        let end = self.c.base + at * US + 5 * self.c.read_to + 4 * self.c.write_to + SEC;
        k.timer(end, WORLD | 6);
    }

    fn cap_tcp_judge(&mut self, k: &mut Kernel) {
        k.probe("TCP capacity probes");
        let t = self.tcp_threads;
        let (a, b, u) = (self.c.ops[self.cap.a].clone(), self.c.ops[self.cap.b].clone(), self.c.ops[self.cap.u].clone());
        let panics: Vec<String> = k.panics.iter().map(|p| p.2.clone()).take(2).collect();
        let done = |o: &Op| o.out_start.or(o.replies.first().map(|r| r.at));
        let arrived = |o: &Op| o.arr.last().map(|x| x.0).unwrap_or(u64::MAX);
        match done(&a) {
            Some(d) if d <= arrived(&a).saturating_add(100 * MS) => {}
            x => k.violation_all(&["C02", "C05", "C19"], "tcp-capacity-lost", format!("with {} of {} TCP threads occupied by stalled clients another query ({}) that arrived at {} was answered at {:?}; panics {:?}", t - 1, t, a.brief(), arrived(&a), x, panics)),
        }
        let free = self.cap.stalled.iter().filter_map(|i| self.c.ops[*i].accepted).min().unwrap_or(0) + self.c.read_to;
        match done(&b) {
            Some(d) if d + MS < free => k.violation("C19", "tcp-capacity-exceeded", format!("with {} stalled clients on {} TCP threads another query was answered {} ms before the first of them could be timed out", t, t, (free - d) / MS)),
            Some(d) if d > free + 100 * MS => k.violation_all(&["C05", "C19"], "tcp-not-freed", format!("with {} stalled clients on {} TCP threads another query was answered {} ms after the first of them should have been timed out", t, t, (d - free) / MS)),
            None => k.violation_all(&["C02", "C05", "C19"], "tcp-not-freed", format!("with {} stalled clients on {} TCP threads another query was never answered", t, t)),
            _ => {}
        }
        match done(&u) {
            Some(d) if d <= u.first_queued + 100 * MS => {}
            x => k.violation_all(&["C05"], "udp-delayed-by-tcp", format!("with {} stalled clients on {} TCP threads, {} that arrived at {} was answered at {:?}", t, t, u.brief(), u.first_queued, x)),
        }
        for i in &self.cap.stalled {
            let o = &self.c.ops[*i];
            if let (Some(acc), Some(cl)) = (o.accepted, o.closed) {
                let from = o.arr.last().map(|x| x.0).unwrap_or(acc).max(acc);
                let (lo, hi) = (from + self.c.read_to - MS, from + self.c.read_to + 100 * MS);
                if cl < lo || cl > hi {
                    k.violation_all(&["C19", "C05"], "read-timeout", format!("a stalled client last heard of at {:.3} ms was disconnected at {:.3} ms; the read timeout is {} s", from as f64 / 1e6, cl as f64 / 1e6, self.c.read_to / SEC));
                }
            }
        }
        if let Some(i) = self.cap.noread {
            let o = &self.c.ops[i];
            let from = o.arr.last().map(|x| x.0).unwrap_or(0).max(o.accepted.unwrap_or(0));
            match o.closed {
                Some(c) if c + MS >= from + self.c.write_to && c <= from + self.c.write_to + 200 * MS => {}
                x => k.violation_all(&["C19", "C05"], "write-timeout", format!("a client that never reads its answer, served from {:.3} ms, was disconnected at {:?}; the write timeout is {} s", from as f64 / 1e6, x, self.c.write_to / SEC)),
            }
        }
        k.stop = true;
    }

    fn load_state(&self) -> String {
        format!("{} reads or opens failed, damage {:?}; zone files {}", self.io_errors, self.damage, files_brief(&self.zone))
    }

    /// Damages the files as the case says.
    fn damage(&mut self, k: &mut Kernel) {
        for d in &self.damage {
            let g = |n: &str| d[n].as_u64().unwrap_or(0) as usize;
            let names: Vec<String> = k.fs.files.keys().cloned().collect();
            let name = names[g("file") % names.len()].clone();
            let kind = d["kind"].as_str().unwrap_or("").to_string();
            if variant(&k.case).is_some() && name.ends_with("conf.json") {
                continue; // its contents differ between the variants
            }
            k.logf(|| format!("damage {} to {}", kind, name));
            k.probe(&format!("damaged files ({})", kind));
            k.nontrivial = true;
            if kind == "missing" {
                k.fs.files.remove(&name);
                self.must_fail = Some(format!("{} does not exist", name));
                continue;
            }
            let f = k.fs.files.get_mut(&name).unwrap();
            if kind == "badline" {
                let l = if name.ends_with("conf.json") { "}{" } else { BAD_LINES[g("val") % BAD_LINES.len()] };
                if g("at") == 0 {
                    let mut n = format!("{}\n", l).into_bytes();
                    n.extend_from_slice(f);
                    *f = n;
                } else {
                    f.extend_from_slice(format!("\n{}\n", l).as_bytes());
                }
                self.must_fail = Some(format!("{} has the line {:?}", name, l));
                continue;
            }
            self.damaged = true;
            self.conf_damaged |= name.ends_with("conf.json");
            if f.is_empty() {
                continue;
            }
            let at = g("at") % f.len();
            match kind.as_str() {
                "flip" => f[at] ^= 1 << (g("val") % 8),
                "set" => f[at] = g("val") as u8,
                "cut" => f.truncate(at),
                "copy" => {
                    let part = f[at..(at + 1 + g("val")).min(f.len())].to_vec();
                    f.extend_from_slice(&part);
                }
                _ => {
                    f.drain(at..(at + 1 + g("val") % 20).min(f.len()));
                }
            }
        }
        let conf_ok = !self.conf_damaged;
        let bad = k.fs.files.iter().filter(|(_, f)| std::str::from_utf8(f).is_err());
        for (name, _) in bad {
            // The zone's own file is always read, and to its end.
            if name.ends_with("conf.json") || conf_ok && name == "/sim/zone" {
                self.must_fail = Some(format!("{} is not valid UTF-8", name));
            }
        }
    }

    fn reply(&mut self, k: &mut Kernel, i: usize, m: Msg) {
        self.served += 1;
        if self.damaged {
            return;
        }
        let o = self.c.ops[i].clone();
        let Some(q) = o.query() else { return };
        if let Cls::Query { trailing: true, .. } = o.cls {
            if m.h.rcode == 1 {
                return;
            }
        }
        let raw_len = o.replies.last().map(|r| r.raw.len()).unwrap_or(0);
        let Some(exp) = self.zone.answer(&q.name, q.ty) else {
            if m.h.rcode != 5 {
                k.violation("C04", "not-refused", format!("{} is outside the zone {} but was answered with code {}", o.brief(), self.zone.top, m.h.rcode));
            }
            if !m.an.is_empty() || !m.ns.is_empty() || !m.ar.is_empty() {
                k.violation("C07", "foreign-answer", format!("{} is outside the zone {} but was answered with records: {}", o.brief(), self.zone.top, m.brief()));
            }
            if m.h.tc {
                k.violation("C03", "needless-truncation", format!("the reply to {} is flagged as truncated but complete", o.brief()));
            }
            return;
        };
        let bad = |k: &mut Kernel, c: &str, s: String| k.violation("C07", c, format!("{} in zone {}: {}; expected {}; got {}", o.brief(), self.zone.top, s, brief_answer(&exp), m.brief()));
        if !exp.rcodes.contains(&m.h.rcode) {
            bad(k, "wrong-code", format!("code {} instead of {:?}", m.h.rcode, exp.rcodes));
            return;
        }
        if m.h.aa != exp.aa {
            bad(k, "wrong-aa", format!("authoritative flag {}", m.h.aa));
        }
        let full = [canon_set(&exp.an), canon_set(&exp.ns), canon_set(&exp.ar)];
        let got = [canon_set(&m.an), canon_set(&m.ns), canon_set(&m.ar)];
        let mut missing = [vec![], vec![], vec![]];
        for s in 0..3 {
            let mut left = full[s].clone();
            for x in &got[s] {
                match left.iter().position(|y| y == x) {
                    Some(p) => {
                        left.remove(p);
                    }
                    None => {
                        bad(k, "extra-record", format!("section {} has a record that the zone does not define for it (or twice): {:?}", s, x));
                        return;
                    }
                }
            }
            missing[s] = left;
        }
        let none = missing.iter().all(|v| v.is_empty());
        if none {
            if m.h.tc {
                k.violation("C03", "needless-truncation", format!("the reply to {} is flagged as truncated but complete ({} bytes)", o.brief(), raw_len));
            }
        } else if !m.h.tc {
            let ps: &[&str] = if o.tcp { &["C07"] } else { &["C07", "C03"] };
            k.violation_all(ps, "missing-records", format!("the reply to {} lacks {:?} and is not flagged as truncated", o.brief(), missing));
        } else {
            self.trunc.push((i, m.clone(), raw_len));
            k.probe(if o.tcp { "replies beyond the limit of TCP" } else { "truncated replies" });
        }
        if o.tcp && !m.h.tc {
            let seq: Vec<Rr> = m.an.iter().chain(&m.ns).chain(&m.ar).map(|x| x.canon()).collect();
            self.full.insert((lower(&q.name), q.ty), seq);
        }
        if raw_len > 480 && raw_len <= 512 && !o.tcp && none {
            k.probe("UDP replies close to the limit");
        }
        if (65_530..=65_535).contains(&raw_len) {
            k.probe("TCP replies close to the limit");
        }
        if raw_len > 512 && o.tcp {
            k.probe("TCP replies larger than UDP could carry");
        }
    }

    /// A truncated reply must be as long as whole records allow.
    fn judge_truncation(&mut self, k: &mut Kernel) {
        for (i, m, raw_len) in std::mem::take(&mut self.trunc) {
            let o = self.c.ops[i].clone();
            let q = o.query().unwrap();
            let exp = self.zone.answer(&q.name, q.ty).unwrap();
            let plain = { let mut p = m.clone(); p.ends.clear(); p.encode(false).len() == raw_len };
            if !plain {
                continue;
            }
            let max = if o.tcp { 65_535 } else { 512 };
            let size = |x: &Rr| { let mut o = vec![]; put_rr(&mut o, x, &mut None); o.len() };
            let counts = [m.an.len(), m.ns.len(), m.ar.len()];
            let total = [exp.an.len(), exp.ns.len(), exp.ar.len()];
            let s = (0..3).find(|s| counts[*s] < total[*s]).unwrap();
            if counts[s + 1..].iter().any(|n| *n > 0) {
                k.violation("C03", "not-leading", format!("the truncated reply to {} lacks records of section {} but has later ones: {}", o.brief(), s, m.brief()));
            }
            let got: Vec<Rr> = m.an.iter().chain(&m.ns).chain(&m.ar).map(|x| x.canon()).collect();
            if let Some(f) = self.full.get(&(lower(&q.name), q.ty)) {
                if f.len() == total.iter().sum::<usize>() {
                    k.probe("truncated replies compared with the full one");
                    if f[..got.len()] != got[..] {
                        k.violation("C03", "not-leading", format!("the truncated reply to {} does not have the leading records of the full reply", o.brief()));
                    }
                    if let Some(n) = f.get(got.len()) {
                        if raw_len + size(n) <= max {
                            k.violation("C03", "truncated-early", format!("the truncated reply to {} has {} bytes; the next record of {} bytes would fit", o.brief(), raw_len, size(n)));
                        }
                    }
                    continue;
                }
            }
            let sec = [&exp.an, &exp.ns, &exp.ar][s];
            let sec_got = [&m.an, &m.ns, &m.ar][s];
            let mut left: Vec<Rr> = canon_set(sec);
            for x in canon_set(sec_got) {
                left.retain(|y| *y != x);
            }
            if left.iter().all(|x| raw_len + size(x) <= max) {
                k.violation("C03", "truncated-early", format!("the truncated reply to {} has {} bytes; the next record would fit", o.brief(), raw_len));
            }
        }
    }
}

pub fn brief_answer(a: &Answer) -> String {
    format!("codes {:?} aa {} an {:?} ns {:?} ar {:?}", a.rcodes, a.aa as u8, brief_rrs(&a.an), brief_rrs(&a.ns), brief_rrs(&a.ar))
}

impl World for NsWorld {
    fn start(&mut self, k: &mut Kernel) {
        k.ch.faults_on = false;
        let (u, t) = life::conf(&k.case);
        if self.life.is_some() {
            k.ch.faults_on = true;
        }
        let conf = json!({"log_level": log_level(&k.case), "udp_server": u, "tcp_server": t, "zone": self.zone.conf});
        k.fs.files.insert("/sim/conf.json".into(), serde_json::to_vec(&conf).unwrap());
        for (n, b) in &self.zone.files {
            k.fs.files.insert(n.clone(), b.clone());
        }
        if self.loading {
            k.ch.faults_on = true;
            self.damage(k);
        }
        k.timer(20 * SEC, WORLD | 99);
    }
    fn timer(&mut self, k: &mut Kernel, tok: u64) {
        if self.c.timer(k, tok) || self.dead {
            return;
        }
        let n = (tok & 0xff) as u32;
        if let Some(l) = self.life.as_mut().filter(|l| !l.nothing_fails()) {
            if n == 99 || n as u64 == life::LIFE_END {
                let p = format!("{:?}", k.panics.iter().map(|p| &p.2).take(3).collect::<Vec<_>>());
                l.end(k, self.up, self.dead, p);
            }
            return;
        }
        if n == 99 {
            if !self.ready {
                // (A damaged configuration may name other addresses.)
                if self.loading && self.conf_damaged && self.addrs[0].is_some() && self.addrs[1].is_some() {
                    k.stop = true;
                    return;
                }
                if self.loading {
                    k.violation("C08", "hang", format!("20 s after its start the nameserver neither serves nor has it exited; {}", self.load_state()));
                    k.stop = true;
                    return;
                }
                k.violation_all(&["C07", "C06", "C19"], "not-started", format!("the nameserver did not bind its addresses: {:?}; zone files {}", self.addrs, files_brief(&self.zone)));
                k.stop = true;
            }
            return;
        }
        self.phase = n;
        self.next(k);
    }
    fn bound(&mut self, k: &mut Kernel, tcp: bool, at: Addr) {
        if at == server_ips(&k.case, tcp).1 {
            self.up[tcp as usize] = true;
        }
        self.addrs[tcp as usize] = Some(at);
        if let Some(l) = self.life.as_mut().filter(|l| !l.nothing_fails()) {
            if l.bound(k) {
                let ops = std::mem::take(&mut self.ops);
                l.start_ops(k, &mut self.c, &ops);
            }
            return;
        }
        if self.up == [true, true] && !self.ready {
            if let Some(w) = &self.must_fail {
                k.violation("C08", "served-broken-zone", format!("{}, yet the nameserver serves; {}", w, self.load_state()));
                k.stop = true;
                return;
            }
            self.begin(k);
        }
    }
    fn bind_errno(&mut self, tcp: bool, at: Addr) -> Option<i32> {
        self.life.as_mut().and_then(|l| l.bind_errno(tcp, at))
    }
    fn bind_failed(&mut self, k: &mut Kernel, tcp: bool, at: Addr) {
        if let (Some(l), true) = (&mut self.life, at.port != 0) {
            l.note(k, format!("binding {} for {} failed", at, if tcp { "TCP" } else { "UDP" }));
        }
    }
    fn listen_errno(&mut self, k: &mut Kernel) -> Option<i32> {
        let l = self.life.as_mut()?;
        let e = l.listen_errno()?;
        l.note(k, "listening failed".into());
        Some(e)
    }
    fn sockopt_errno(&mut self, k: &mut Kernel, dgram: bool, local: Addr) -> Option<i32> {
        let port = self.c.udp.port;
        let l = self.life.as_mut().filter(|_| local.port == port)?;
        let e = l.sockopt_errno(dgram, local)?;
        l.note(k, "setting the timeout of the UDP socket failed".into());
        Some(e)
    }
    fn socket_errno(&mut self, _k: &mut Kernel, dgram: bool) -> Option<i32> {
        self.life.as_mut().and_then(|l| l.socket_errno(dgram))
    }
    fn spawn_fails(&mut self, k: &mut Kernel, n: u64) -> bool {
        self.life.as_mut().is_some_and(|l| l.spawn_fails(k, n))
    }
    fn spawn_delays(&mut self, n: u64) -> (u64, u64) {
        self.life.as_mut().map(|l| l.spawn_delays(n)).unwrap_or((0, 0))
    }
    fn tcp_syn(&mut self, _k: &mut Kernel, _conn: usize, at: Addr) -> SynReply {
        self.life.as_ref().map(|l| l.syn(at)).unwrap_or(SynReply::Refuse)
    }
    fn udp_queued(&mut self, k: &mut Kernel, _at: Addr, src: Addr, data: &[u8]) {
        self.inflight += 1;
        self.max_inflight = self.max_inflight.max(self.inflight);
        self.c.udp_queued(k, src, data);
    }
    fn udp_taken(&mut self, k: &mut Kernel, _at: Addr, src: Addr, data: &[u8]) {
        self.c.udp_taken(k, src, data);
    }
    fn udp_sent(&mut self, k: &mut Kernel, src: Addr, dst: Addr, data: &[u8]) {
        self.inflight -= 1;
        if self.life.is_some() && src.port != self.c.udp.port {
            // What wakes up the server.
            return;
        }
        if src != self.c.server_of(dst, false) && !is_local_ip(dst.ip) {
            k.violation("C01", "wrong-source", format!("a datagram was sent to {} from {} instead of {}", dst, src, self.c.server_of(dst, false)));
        }
        if let Got::Reply(i, m) = self.c.udp_sent(k, dst, data) {
            self.reply(k, i, *m);
        }
    }
    fn tcp_established(&mut self, k: &mut Kernel, conn: usize) {
        self.c.tcp_established(k, conn);
    }
    fn tcp_accepted(&mut self, k: &mut Kernel, conn: usize) {
        self.inflight += 1;
        self.max_inflight = self.max_inflight.max(self.inflight);
        self.c.tcp_accepted(k, conn);
    }
    fn tcp_arrived(&mut self, k: &mut Kernel, conn: usize, n: usize) {
        self.c.tcp_arrived(k, conn, n);
    }
    fn tcp_wrote(&mut self, k: &mut Kernel, conn: usize, data: &[u8]) {
        if let Got::Reply(i, m) = self.c.tcp_wrote(k, conn, data) {
            self.reply(k, i, *m);
        }
    }
    fn tcp_closed(&mut self, k: &mut Kernel, conn: usize) {
        self.inflight -= 1;
        self.c.tcp_closed(k, conn);
    }
    fn tcp_refused(&mut self, k: &mut Kernel, conn: usize) {
        self.c.tcp_refused(k, conn);
    }
    fn tcp_data(&mut self, _k: &mut Kernel, conn: usize, data: &[u8]) {
        self.c.tcp_data(conn, data.len());
    }
    fn tcp_fin(&mut self, k: &mut Kernel, conn: usize) {
        k.tcp_fin(conn);
    }
    fn fault(&mut self, k: &mut Kernel, kind: Kd, tid: Tid, peer: FaultPeer) {
        if peer == FaultPeer::File {
            self.io_errors += 1;
            k.nontrivial = true;
        }
        self.c.fault(kind, tid, peer);
    }
    fn exited(&mut self, k: &mut Kernel, code: i32) {
        self.dead = true;
        if let Some(l) = self.life.as_mut().filter(|l| !l.nothing_fails()) {
            let p = format!("{:?}", k.panics.iter().map(|p| &p.2).take(3).collect::<Vec<_>>());
            l.exited(k, &self.c, self.up, code, p);
            k.stop = true;
            return;
        }
        if self.loading {
            let p: Vec<&String> = k.panics.iter().map(|p| &p.2).take(3).collect();
            if self.ready {
                let s = format!("the process exited with status {} while serving; {}; panics {:?}", code, self.load_state(), p);
                k.violation("C08", "process-died", s);
            } else if code == 0 {
                let s = format!("the process did not serve but exited with status 0; {}; panics {:?}", self.load_state(), p);
                k.violation("C08", "exit-status", s);
            } else if !p.is_empty() || k.aborted {
                let s = format!("the process crashed while loading: {:?}; {}", p, self.load_state());
                k.violation("C08", "crash", s);
            } else if !self.damaged && self.must_fail.is_none() && self.io_errors == 0 {
                let s = format!("the process refused (status {}) to load an intact zone although no read failed; {}", code, self.load_state());
                k.violation("C08", "refused-to-start", s);
            } else {
                k.probe("refusals to load");
            }
            k.stop = true;
            return;
        }
        let p: Vec<&String> = k.panics.iter().map(|p| &p.2).take(3).collect();
        let s = format!("the process exited with status {} while serving; panics {:?}", code, p);
        if self.ready {
            k.violation_all(&["C01", "C02", "C06", "C19"], "process-died", s);
        } else {
            k.violation_all(&["C07", "C06", "C08"], "refused-to-start", format!("{}; zone files {}", s, files_brief(&self.zone)));
        }
        k.stop = true;
    }
    fn finish(&mut self, k: &mut Kernel) {
        if self.life.as_ref().is_some_and(|l| !l.nothing_fails()) {
            return;
        }
        if !self.ready {
            if self.loading {
                let elsewhere = self.conf_damaged && self.addrs[0].is_some() && self.addrs[1].is_some();
                if !self.dead && self.must_fail.is_none() && !elsewhere {
                    k.violation("C08", "hang", format!("the nameserver neither serves nor has it exited; {}", self.load_state()));
                }
                return;
            }
            if k.violations.is_empty() {
                k.violation_all(&["C07", "C06", "C08"], "not-started", format!("the nameserver never bound its addresses; zone files {}", files_brief(&self.zone)));
            }
            return;
        }
        if self.loading {
            // What is served is the whole zone and nothing else.
            let v: Vec<_> = k.violations.iter().filter(|v| matches!(v.prop.as_str(), "C07" | "C04")).cloned().collect();
            for v in v {
                k.violation("C08", &v.class, format!("{}; {}", v.msg, self.load_state()));
            }
            for o in &self.c.ops {
                if o.accepted.is_some() && o.query().is_some() && o.replies.is_empty() && !self.dead && !self.conf_damaged {
                    k.violation("C08", "unanswered", format!("{} got no answer; {}; panics {:?}", o.brief(), self.load_state(), k.panics.iter().map(|p| &p.2).take(2).collect::<Vec<_>>()));
                }
            }
            return;
        }
        self.judge_truncation(k);
        let dead = self.dead || self.phase < 4;
        self.c.finish(k, self.recover.clone(), dead);
    }
}

pub fn files_brief(z: &Zone) -> String {
    let mut s = String::new();
    for (n, b) in &z.files {
        s += &format!("--{}: {}", n, String::from_utf8_lossy(&b[..b.len().min(1500)]).replace('\n', "|"));
    }
    s
}
