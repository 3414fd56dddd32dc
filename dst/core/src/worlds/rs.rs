//! The resolver program with its clients, the servers of a name space, attackers, and
//! everything that can happen to them.
use super::clients::*;
use super::life::{self, Life};
use super::ns::{gen_v6, server_ips, comparable, log_level, variant, net_rates, os_rates, quiet, sched_rates};
use super::trace;
use super::tree::*;
use crate::case::*;
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use crate::wire::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const WORLD: u64 = 9 << 56;
const DELAYED: u64 = 5 << 56;
const DRIP: u64 = 10 << 56;
const EVENT: u64 = 6 << 56;

/// Any of the others with tracing.
fn generate_trace(seed: u64) -> Case {
    let mut rr = Rng::new(hash2(seed, 41));
    let r = &mut rr;
    let p = *r.pick(&["mix", "mix", "fail", "fail", "chaos", "cache", "cache", "evil", "abyss", "hostile", "trunc", "limits", "spoof", "clients", "flood"]);
    let mut c = generate(p, seed);
    c.profile = "trace".into();
    c.set("trace", *r.pick(&[0, 1, 2, 3, 4, 4, 6, 7]));
    c.set("log", *r.pick(&[1, 2, 2, 3, 4]));
    c.set("force_color", r.below(2) as i64);
    c.set("judge_trace", 1);
    c.set("bin", 0);
    c.rate("output_err", 0);
    c
}

pub fn generate(profile: &str, seed: u64) -> Case {
    if profile == "trace" {
        return generate_trace(seed);
    }
    let mut rr = Rng::new(hash2(seed, hash_bytes(11, profile.as_bytes())));
    let r = &mut rr;
    let mut c = Case { scenario: "rs".into(), profile: profile.into(), seed, ..Default::default() };
    c.set("horizon_ms", 60_000_000);
    c.set("max_steps", 1_500_000);
    c.set("tree_seed", r.below(1 << 40) as i64);
    c.set("ttl_mode", *r.pick(&[0, 1, 2, 3]));
    c.set("tlds", r.range(1, 4) as i64);
    c.set("slds", r.range(1, 6) as i64);
    c.set("subs", r.below(4) as i64);
    c.set("max_ns", *r.pick(&[1, 2, 3, 4]));
    c.set("glueless", *r.pick(&[0, 25, 50]));
    c.set("names", r.range(1, 4) as i64);
    c.set("aliases", *r.pick(&[0, 25, 60]));
    c.set("big", *r.pick(&[0, 5, 20]));
    c.set("udp_threads", *r.pick(&[1, 1, 2, 3, 5]));
    c.set("tcp_threads", *r.pick(&[1, 1, 2, 3]));
    c.set("read_s", r.range(1, 3) as i64);
    c.set("write_s", r.range(1, 3) as i64);
    c.set("up_read_s", *r.pick(&[1, 1, 2, 3]));
    c.set("up_write_s", 2);
    c.set("max_ns_queried", *r.pick(&[1, 2, 3, 3, 4]));
    c.set("retries", *r.pick(&[1, 2, 2, 3]));
    c.set("max_cname", *r.pick(&[1, 2, 4, 10, 10]));
    c.set("clean_s", *r.pick(&[1, 2, 60]));
    c.set("trace", *r.pick(&[0, 0, 0, 1, 2, 3]));
    c.set("log", r.below(5) as i64);
    c.set("lat_us", *r.pick(&[1, 100, 500, 20_000]));
    c.set("wild", (r.below(5) == 0) as i64);
    gen_v6(r, &mut c);
    c.set("tc", *r.pick(&[0, 0, 10]));
    let mut x = Mix { n: r.range(4, 24), span_us: *r.pick(&[1000, 100_000, 5_000_000]), tcp: 25, hostile: 4, stall: 4, clients: r.range(1, 10), read_s: c.p("read_s", 1) as u64 };
    let mut faulty = false;
    let mut repeat = 30;
    match profile {
        "mix" => {
            c.set("bad", *r.pick(&[0, 0, 20]));
            faulty = r.below(2) == 0;
        }
        "fail" => {
            c.set("bad", *r.pick(&[25, 50, 80]));
            c.set("flaky", *r.pick(&[0, 20, 60]));
            c.set("max_ns", *r.pick(&[2, 3, 4]));
            c.set("max_ns_queried", *r.pick(&[1, 2, 2, 3, 4]));
            c.set("shuffle", r.below(2) as i64);
            x.hostile = 0;
            x.stall = 0;
        }
        "chaos" => {
            c.set("bad", *r.pick(&[10, 50, 90]));
            c.set("strict", 0);
            c.set("flaky", *r.pick(&[0, 20]));
            faulty = true;
        }
        "cache" => {
            c.set("ttl_mode", *r.pick(&[1, 1, 3, 3, 2]));
            c.set("slds", r.range(1, 2) as i64);
            c.set("names", r.range(1, 2) as i64);
            x.n = r.range(10, 50);
            x.span_us = *r.pick(&[4_000_000, 12_000_000, 40_000_000]);
            x.hostile = 0;
            x.stall = 0;
            repeat = 80;
            c.set("wall_jumps", r.below(2) as i64);
            c.rate("clock_jump", if c.p("wall_jumps", 0) != 0 { 5_000 } else { 0 });
            faulty = r.below(4) == 0;
        }
        "spoof" => {
            c.set("spoof", *r.pick(&[40, 70, 100]));
            if r.below(2) == 0 {
                c.set("bad", *r.pick(&[15, 30, 60]));
                c.set("bad_kinds", 4);
                c.set("strict", r.below(2) as i64);
            }
            x.hostile = 0;
            x.stall = 0;
        }
        "evil" => {
            c.set("evil", *r.pick(&[40, 80]));
            if r.below(2) == 0 {
                c.set("bad", *r.pick(&[15, 30]));
                c.set("bad_kinds", 3);
                c.set("strict", r.below(2) as i64);
            }
            c.set("aliases", *r.pick(&[25, 60]));
            c.set("shuffle", r.below(2) as i64);
            x.hostile = 0;
            x.stall = 0;
        }
        "abyss" => {
            c.set("abysses", r.range(1, 3) as i64);
            c.set("abyss_kind", r.below(7) as i64);
            x.n = r.range(1, 8);
            x.hostile = 0;
            x.stall = 0;
            c.set("max_cname", *r.pick(&[2, 10, 10, 40]));
            c.set("max_ns_queried", *r.pick(&[1, 3, 13]));
            c.set("slds", r.range(1, 3) as i64);
            if r.below(3) == 0 {
                // Many tries, of servers that fail at once.
                c.set("retries", *r.pick(&[10, 40, 100, 400]));
                c.set("bad", *r.pick(&[30, 70, 95]));
                c.set("bad_kinds", 5);
                c.set("strict", r.below(2) as i64);
            }
        }
        "hostile" => {
            c.set("bad", *r.pick(&[30, 70]));
            c.set("bad_kinds", 1);
            c.set("strict", r.below(2) as i64);
            x.hostile = 0;
            x.stall = 0;
            faulty = r.below(2) == 0;
        }
        "trunc" => {
            c.set("big", *r.pick(&[30, 70]));
            c.set("tc", *r.pick(&[10, 50, 90]));
            c.set("bad", *r.pick(&[0, 0, 20]));
            x.hostile = 0;
            faulty = r.below(3) == 0;
        }
        "limits" => {
            c.set("bad", *r.pick(&[30, 90]));
            c.set("bad_kinds", 2);
            c.set("strict", r.below(2) as i64);
            c.set("chain", r.range(1, 14) as i64);
            c.set("max_ns", 4);
            c.set("retries", *r.pick(&[1, 2, 3, 4]));
            x.hostile = 0;
            x.stall = 0;
            x.n = r.range(2, 10);
        }
        "flood" => {
            x.n = r.range(70, 250);
            x.span_us = *r.pick(&[4, 1000, 200_000]);
            x.tcp = *r.pick(&[0, 10, 100]);
            x.clients = r.range(10, 200);
            x.hostile = 0;
            x.stall = 0;
            c.set("slds", r.range(1, 3) as i64);
            c.set("udp_threads", *r.pick(&[1, 2, 2, 4, 10]));
            c.set("tcp_threads", *r.pick(&[1, 2, 4, 10]));
            c.set("bad", *r.pick(&[0, 0, 20]));
            c.set("trace", 0);
            faulty = r.below(4) == 0;
        }
        // Everything the clients can do.
        _ => {
            x.n = r.range(6, 40);
            x.tcp = *r.pick(&[10, 50, 80]);
            x.hostile = *r.pick(&[20, 60]);
            x.stall = 25;
            c.set("slds", 2);
            faulty = r.below(2) == 0;
        }
    }
    if profile != "abyss" {
        c.set("cross", (r.below(5) == 0) as i64);
    }
    c.set("bin", (r.below(if profile == "hostile" { 2 } else { 8 }) == 0) as i64);
    let t = Tree::generate(&c);
    let mut asked: Vec<(String, u16)> = vec![];
    let c2 = c.clone();
    c.ops = generate_ops(r, &x, &mut |r| {
        let q = if !asked.is_empty() && r.below(100) < repeat { r.pick(&asked).clone() } else { t.ask(r, &c2) };
        asked.push(q.clone());
        q
    });
    // Changes of the data, and outages.
    if matches!(profile, "mix" | "cache" | "chaos" | "fail") && !t.sets.is_empty() {
        for _ in 0..r.below(8) {
            c.ops.push(json!({"ev": "ver", "t": r.below(x.span_us), "set": r.below(t.sets.len() as u64)}));
        }
    }
    if matches!(profile, "chaos" | "fail" | "cache") && r.below(2) == 0 {
        for _ in 0..r.range(1, 4) {
            let hosts: Vec<u64> = (0..r.range(1, 4)).map(|_| r.below(t.hosts.len() as u64)).collect();
            c.ops.push(json!({"ev": "down", "t": r.below(x.span_us), "hosts": hosts, "dur": *r.pick(&[100_000u64, 2_000_000, 20_000_000])}));
        }
    }
    c.ops.sort_by_key(|o| o["t"].as_u64());
    sched_rates(r, &mut c);
    quiet(r, &mut c, &[7, 100, 4000]);
    if faulty {
        net_rates(r, &mut c);
        os_rates(r, &mut c);
        if r.below(3) == 0 {
            for n in ["socket_err", "bind_err", "connect_err"] {
                c.rate(n, *r.pick(&[0, 0, 20_000, 100_000]));
            }
        }
    } else {
        c.rate("stall", 0);
    }
    c
}

/// Start-up failures.
pub fn generate_life(profile: &str, seed: u64) -> Case {
    let mut rr = Rng::new(hash2(seed, hash_bytes(19, profile.as_bytes())));
    let r = &mut rr;
    let mut c = Case { scenario: "rslife".into(), profile: profile.into(), seed, ..Default::default() };
    c.set("tree_seed", r.below(1 << 40) as i64);
    c.set("tlds", r.range(1, 2) as i64);
    c.set("slds", r.range(1, 3) as i64);
    c.set("max_ns", 2);
    c.set("names", 2);
    c.set("write_s", r.range(1, 3) as i64);
    c.set("up_read_s", 1);
    c.set("up_write_s", 1);
    c.set("max_ns_queried", 3);
    c.set("log", r.below(5) as i64);
    c.set("wild", (r.below(4) == 0) as i64);
    gen_v6(r, &mut c);
    let t = Tree::generate(&c);
    let c2 = c.clone();
    life::generate(r, &mut c, 1, &mut |r| t.ask(r, &c2));
    c
}

/// The same under several trace and log settings.
pub fn generate_diff(seed: u64) -> Case {
    let mut rr = Rng::new(hash2(seed, 29));
    let r = &mut rr;
    let p = *r.pick(&["mix", "fail", "chaos", "cache", "evil", "abyss", "hostile", "hostile", "trunc", "limits", "spoof", "clients"]);
    let mut c = generate(p, seed);
    c.scenario = "rsdiff".into();
    comparable(r, &mut c);
    c
}

/// The same with other random numbers.
pub fn generate_ids(seed: u64) -> Case {
    let mut rr = Rng::new(hash2(seed, 37));
    let r = &mut rr;
    let mut c = generate(*r.pick(&["mix", "fail", "clients", "trunc"]), seed);
    c.scenario = "rsids".into();
    let (l, t) = (c.p("log", 0) * 8, c.p("trace", 0) * 2);
    comparable(r, &mut c);
    c.rate("output_err", 0);
    c.set("variants", 2);
    c.set("ids", 1);
    c.set("variant_0", l | t);
    c.set("variant_1", l | t);
    c
}

pub fn resolver_conf(c: &Case) -> Value {
    let (u, t) = life::conf(c);
    let mut tr = c.p("trace", 0);
    let mut silent = tr & 7 == 0;
    if let Some(o) = variant(c) {
        silent = o & 1 != 0;
        tr = (o & 2) | (o >> 2 & 1);
    }
    json!({"log_level": log_level(c), "udp_server": u, "tcp_server": t, "resolver": {
        "max_ns_queried": c.p("max_ns_queried", 3), "max_ns_retries": c.p("retries", 2), "max_cname_redir": c.p("max_cname", 10),
        "read_timeout": c.p("up_read_s", 1), "write_timeout": c.p("up_write_s", 1),
        "cache_conf": {"clean_period": c.p("clean_s", 60), "entries_cleaned": 100},
        "trace_conf": {"silent": silent, "verbose": tr & 2 != 0, "color": tr & 1 != 0}}})
}

/// One message sent to an upstream server.
#[derive(Clone, Debug)]
pub struct Att {
    pub t: u64,
    pub tid: Tid,
    pub to: Addr,
    pub host: Option<usize>,
    pub name: String,
    pub ty: u16,
    pub id: u16,
    pub udp: bool,
    pub src: Addr,
    /// It reached a server that was not itself at fault, or was lost before.
    pub ignored: bool,
    /// How often this server has been asked this, in a row.
    pub try_no: usize,
    pub down: bool,
    pub anything: bool,
    pub valid: bool,
    pub useful: bool,
    pub fault: bool,
    /// The reply that counts.
    pub resp: Option<Box<Msg>>,
}

/// What a worker thread has done for the request it handles.
#[derive(Default)]
struct Ctx {
    /// What it has printed.
    out: String,
    atts: Vec<usize>,
    fault: bool,
    nx: BTreeSet<String>,
    /// The end of the previous attempt is not known before the next action.
    last: Option<usize>,
    conn: Option<usize>,
}

/// Something a server said and the resolver received.
#[derive(Clone, Debug)]
struct Learnt {
    t: u64,
    keys: Vec<Rr>,
    ttls: BTreeMap<Rr, u32>,
    min: u32,
}
impl Learnt {
    fn exp(&self) -> u64 {
        self.t.saturating_add(self.min as u64 * SEC)
    }
}

struct Up {
    host: usize,
    inb: Vec<u8>,
    tid: Tid,
    att: Option<usize>,
    /// Bytes sent and taken by the resolver.
    sent: Vec<u8>,
    took: usize,
}

#[derive(Clone)]
struct Done {
    key: (String, u16),
    start: u64,
    end: u64,
    sets: Vec<(String, u16)>,
}

pub struct RsWorld {
    pub c: Clients,
    pub tree: Tree,
    ops: Vec<Value>,
    events: Vec<Value>,
    up: [bool; 2],
    ready: bool,
    phase: u32,
    workload_end: u64,
    deadline: u64,
    /// Sockets open while nothing is done.
    fds: usize,
    recover: std::ops::Range<usize>,
    dead: bool,
    udp_threads: usize,
    tcp_threads: usize,
    read_to: u64,
    max_ns: usize,
    retries: usize,
    max_cname: usize,
    strict: bool,
    atts: Vec<Att>,
    ctx: BTreeMap<Tid, Ctx>,
    by_src: BTreeMap<Addr, usize>,
    conns: BTreeMap<usize, Up>,
    learnt: BTreeMap<(String, u16), Vec<Learnt>>,
    /// Owner and target of NS sets by address; owners by address.
    addr_names: BTreeMap<u32, BTreeSet<String>>,
    ns_owners: BTreeMap<String, BTreeSet<String>>,
    down: BTreeMap<usize, u64>,
    delayed: Vec<(Addr, Addr, Vec<u8>)>,
    drips: Vec<(usize, u8)>,
    rng: Rng,
    spoof: u64,
    evil: bool,
    done: Vec<Done>,
    served: u64,
    ids: Vec<u16>,
    same_id: u32,
    probe_out: [BTreeSet<Addr>; 2],
    probing: bool,
    extra: Vec<&'static str>,
    life: Option<Life>,
    judge_trace: bool,
    /// Who printed last.
    printer: Tid,
}

impl RsWorld {
    pub fn new(case: &Case) -> RsWorld {
        let tree = Tree::generate(case);
        let [u, t] = [false, true].map(|tcp| server_ips(case, tcp)).map(|(ip, a)| Addr { ip, port: a.port });
        let tt = case.p("tcp_threads", 2) as usize;
        let mut c = Clients::new(u, t, tt, case.p("read_s", 1) as u64, case.p("write_s", 1) as u64);
        c.strict_latency = false;
        c.use_v6(case);
        let max_ns = case.p("max_ns_queried", 3) as usize;
        let strict = tree.all_reachable(max_ns);
        let (evil, spoof) = (case.p("evil", 0) > 0, case.p("spoof", 0) as u64);
        let mut extra = vec![];
        if spoof > 0 {
            extra.push("C13");
        }
        if evil {
            extra.push("C14");
        }
        RsWorld {
            c,
            ops: case.ops.iter().filter(|o| o["ev"].is_null()).cloned().collect(),
            events: case.ops.iter().filter(|o| !o["ev"].is_null() && o["ev"] != "timing").cloned().collect(),
            up: [false; 2],
            ready: false,
            phase: 0,
            workload_end: 0,
            deadline: 0,
            fds: 0,
            recover: 0..0,
            dead: false,
            udp_threads: case.p("udp_threads", 2) as usize,
            tcp_threads: tt,
            read_to: case.p("up_read_s", 1) as u64 * SEC,
            max_ns,
            retries: case.p("retries", 2) as usize,
            max_cname: case.p("max_cname", 10) as usize,
            strict,
            tree,
            atts: vec![],
            ctx: BTreeMap::new(),
            by_src: BTreeMap::new(),
            conns: BTreeMap::new(),
            learnt: BTreeMap::new(),
            addr_names: BTreeMap::new(),
            ns_owners: BTreeMap::new(),
            down: BTreeMap::new(),
            delayed: vec![],
            drips: vec![],
            rng: Rng::new(hash2(case.seed, 0x55)),
            spoof,
            evil,
            done: vec![],
            served: 0,
            ids: vec![],
            same_id: 0,
            probe_out: Default::default(),
            probing: false,
            extra,
            life: Life::new(case),
            judge_trace: case.p("judge_trace", 0) != 0,
            printer: 0,
        }
    }

    fn props(&self, base: &[&'static str]) -> Vec<&'static str> {
        base.iter().copied().chain(self.extra.iter().copied()).collect()
    }

    // ----- phases -----

    fn begin(&mut self, k: &mut Kernel) {
        self.ready = true;
        self.c.base = k.now + 2 * MS;
        let mut last = self.c.base;
        for o in std::mem::take(&mut self.ops) {
            let i = self.c.add(&o);
            self.c.schedule(k, i);
            let op = &self.c.ops[i];
            last = last.max(self.c.base + op.t + op.segs.last().map(|s| s.1).unwrap_or(0).max(op.end_at));
        }
        for (i, e) in self.events.iter().enumerate() {
            k.timer(self.c.base + e["t"].as_u64().unwrap_or(0) * US, EVENT | i as u64);
        }
        self.workload_end = last;
        k.timer(self.c.base, WORLD | 1);
        k.timer(last + 50 * MS, WORLD | 2);
    }

    /// Is every request over?
    fn settled(&self, k: &Kernel) -> bool {
        let udp = self.c.ops.iter().all(|o| o.tcp || o.queued <= o.taken && (matches!(o.cls, Cls::Nothing | Cls::Optional) || o.replies.len() as u32 + o.excused >= o.taken));
        let working = self.ctx.values().any(|c| c.last.is_some_and(|l| self.atts[l].t + 2 * self.read_to + 500 * MS + k.stalled_in(self.atts[l].t, k.now) > k.now));
        udp && !working && self.c.all_closed() && !self.c.transferring(k)
    }

    fn wait_settled(&mut self, k: &mut Kernel, phase: u32) {
        let n = self.c.ops.len() as u64;
        self.deadline = k.now + (400 * self.read_to + 10 * SEC) * (n + 1);
        self.phase = phase;
        k.timer(k.now + 200 * MS, WORLD | 50);
    }

    fn next(&mut self, k: &mut Kernel, tok: u32) {
        if tok == 50 {
            if !self.settled(k) && k.now < self.deadline {
                k.timer(k.now + 200 * MS, WORLD | 50);
                return;
            }
        } else {
            self.phase = tok;
        }
        match self.phase {
            1 => {
                k.ch.faults_on = true;
                self.fds = k.net.open_fds();
                k.probe("workload started");
            }
            2 => self.wait_settled(k, 3),
            3 => {
                k.nontrivial = self.served >= 2 && self.atts.len() >= 2;
                k.ch.faults_on = false;
                self.down.clear();
                self.tree.cure();
                k.timer(k.now + 3200 * MS + k.case.p("quiet_s", 0) as u64 * SEC, WORLD | 4);
            }
            4 => {
                // Recovery: well-formed queries on both transports.
                self.c.base = k.now + MS;
                let a = self.c.ops.len();
                let mut names: Vec<(String, u16)> = self.tree.sets.iter().filter(|s| s.ty != CNAME).map(|s| (s.name.clone(), s.ty)).collect();
                self.rng.shuffle(&mut names);
                names.truncate(7);
                names.insert(0, ("warm.probe.".into(), A));
                for (j, (n, ty)) in names.iter().enumerate() {
                    let m = Msg::query(900 + j as u16, n, *ty, true).encode(false);
                    let o = json!({"t": (j as u64 / 4) * 3000, "cl": 200 + j, "tcp": j % 2 == 1, "hex": hex(&m), "what": "recovery"});
                    let i = self.c.add(&o);
                    self.c.schedule(k, i);
                }
                self.recover = a..self.c.ops.len();
                self.workload_end = k.now;
                k.timer(self.c.base + 20 * MS + 20 * k.net.lat, WORLD | 5);
            }
            5 => self.wait_settled(k, 6),
            6 => {
                for o in self.c.ops[self.recover.clone()].to_vec() {
                    if o.replies.is_empty() && (o.tcp || o.queued > 0) {
                        k.violation_all(&["C01", "C02", "C11", "C12", "C15"], "not-recovered", format!("after the faults had stopped, {} got no answer (taken {}, accepted {:?}); panics {}", o.brief(), o.taken, o.accepted, panics(k)));
                    }
                }
                // As many requests at once as there are threads.
                self.probing = true;
                self.c.base = k.now + MS;
                for (tcp, n) in [(false, self.udp_threads), (true, self.tcp_threads)] {
                    for j in 0..2 * n {
                        let name = format!("{}{}.probe.", if tcp { "t" } else { "u" }, j);
                        let m = Msg::query(100 + j as u16, &name, A, true).encode(false);
                        let i = self.c.add(&json!({"t": 0, "cl": 300 + j, "tcp": tcp, "hex": hex(&m), "what": "capacity"}));
                        self.c.schedule(k, i);
                    }
                }
                k.timer(k.now + 300 * MS + 8 * k.net.lat, WORLD | 7);
            }
            7 => {
                for (tcp, n) in [(false, self.udp_threads), (true, self.tcp_threads)] {
                    let got = self.probe_out[tcp as usize].len();
                    let t = if tcp { "TCP" } else { "UDP" };
                    if got < n {
                        k.violation_all(&["C02", "C15", "C19", "C11"], "capacity-lost", format!("{} {} queries are handled at once although {} threads are configured; panics {}", got, t, n, panics(k)));
                    }
                    if got > n {
                        k.violation("C19", "capacity-exceeded", format!("{} {} queries are handled at once although {} threads are configured", got, t, n));
                    }
                }
                k.probe("capacity probes");
                self.wait_settled(k, 8);
            }
            8 => {
                let n = k.net.open_fds();
                if self.life.is_none() && n > self.fds {
                    k.violation_all(&["C02", "C15"], "sockets-kept", format!("with no request in progress {} sockets are open, {} were when the service started: {}", n, self.fds, k.net.open_brief()));
                }
                self.phase = 9;
                k.stop = true;
            }
            _ => {}
        }
    }

    // ----- what the resolver sends -----

    fn upstream(&mut self, k: &mut Kernel, src: Addr, to: Addr, data: &[u8], udp: bool) -> Option<usize> {
        let m = match Msg::decode(data) {
            Ok(m) => m,
            Err(e) => {
                k.violation("C03", "malformed-query", format!("the query sent to {} is not a message: {}: {}", to, e, hex(data)));
                return None;
            }
        };
        if m.h.qr || m.h.opcode != 0 || m.h.tc || m.h.rcode != 0 || m.q.len() != 1 || m.q[0].class != 1 || !m.an.is_empty() || !m.ns.is_empty() {
            k.violation("C03", "bad-query", format!("the query sent to {} is not a well-formed query: {}", to, m.brief()));
        }
        if udp && data.len() > 512 {
            k.violation("C03", "query-too-long", format!("a UDP query of {} bytes was sent", data.len()));
        }
        let tid = k.cur;
        let q = m.q.first().cloned().unwrap_or(Q { name: ".".into(), ty: 0, class: 1 });
        let name = lower(&q.name);
        let i = self.atts.len();
        let host = self.tree.by_ip.get(&to.ip).copied();
        let b = to.ip.to_be_bytes();
        if to.port != 53 {
            k.violation("C13", "wrong-port", format!("a query was sent to {}", to));
        }
        if b[0] == 66 {
            let p = if b[1] == 7 { ["C13", "C09"] } else { ["C14", "C09"] };
            k.violation_all(&p, "false-server-used", format!("a query for {} {} was sent to {}, an address that {} claimed", name, q.ty, to, if b[1] == 7 { "a forged reply" } else { "a server of another zone" }));
        }
        self.gap(k, tid, udp);
        if udp {
            if let Some(p) = self.ctx.get(&tid).and_then(|c| c.last).map(|p| &self.atts[p]) {
                if p.udp && p.to == to && p.name == name && p.ty == q.ty && !p.valid {
                    self.same_id += (p.id == m.h.id) as u32;
                    if self.same_id >= 3 {
                        k.violation("C13", "id-reused", format!("retries of a query for {} to {} use the same ID {} again and again", name, to, m.h.id));
                    }
                }
            }
            self.ids.push(m.h.id);
        }
        let fault = self.ctx.entry(tid).or_default().fault;
        self.atts.push(Att { t: k.now, tid, to, host, name: name.clone(), ty: q.ty, id: m.h.id, udp, src, ignored: false, try_no: 1, down: false, anything: false, valid: false, useful: false, fault, resp: None });
        let cx = self.ctx.get_mut(&tid).unwrap();
        cx.atts.push(i);
        cx.last = Some(i);
        let n = cx.atts.len();
        if n > 600 {
            k.violation("C12", "too-many-queries", format!("one client query has caused {} upstream queries so far", n));
            k.stop = true;
        }
        // Limits on the tries and on the servers, per question.
        let (mut tries, mut servers) = (0, BTreeSet::new());
        let mut same = true;
        for a in cx.atts.iter().rev().map(|a| &self.atts[*a]) {
            if a.name != name || a.ty != q.ty {
                same = false;
                continue;
            }
            if a.useful {
                break;
            }
            if a.to != to {
                same = false;
            }
            if same && a.udp == udp {
                tries += 1;
            }
            servers.insert(a.to);
        }
        self.atts[i].try_no = tries;
        if tries > self.retries && !(self.tree.by_name.contains_key(&name) && q.ty == A) && !self.tree.in_abyss(&name) {
            k.violation("C19", "too-many-tries", format!("{} was asked for {} {} {} times in a row although at most {} tries are configured", to, name, q.ty, tries, self.retries));
        }
        if servers.len() > self.max_ns && !(self.tree.by_name.contains_key(&name) && q.ty == A) && !self.tree.in_abyss(&name) {
            k.violation("C19", "too-many-servers", format!("{:?} were asked for {} {} although at most {} nameservers per zone are configured", servers, name, q.ty, self.max_ns));
        }
        k.mixin(77, hash_bytes(to.ip as u64, name.as_bytes()));
        Some(i)
    }

    /// The thread goes on: how long has it waited for the reply to its last query?
    fn gap(&mut self, k: &mut Kernel, tid: Tid, udp_next: bool) {
        let Some(p) = self.ctx.get(&tid).and_then(|c| c.last) else { return };
        let a = &self.atts[p];
        let d = k.now - a.t;
        let lost = k.stalled_in(a.t, k.now);
        // (While a transport fails to start threads are paused by the environment.)
        if self.life.is_none() && d > self.read_to + 100 * MS + 2 * lost {
            k.violation_all(&["C19", "C12", "C11"], "waited-too-long", format!("the reply of {} to the query for {} {} was waited for {} ms although the read timeout is {} ms", a.to, a.name, a.ty, d / MS, self.read_to / MS));
        }
        let closed = a.host.map(|h| self.tree.hosts[h].beh == Beh::Closed).unwrap_or(false);
        if a.udp && !a.anything && !a.fault && !closed && d + 5 * MS < self.read_to {
            k.violation_all(&["C19", "C11"], "gave-up-early", format!("the reply of {} to the query for {} {} was waited for {} ms only; the read timeout is {} ms", a.to, a.name, a.ty, d / MS, self.read_to / MS));
        }
        let _ = udp_next;
    }

    /// A reply reached the resolver.
    fn received(&mut self, k: &mut Kernel, i: usize, m: &Msg) {
        k.logf(|| format!("thread {} has the reply {}", k_tid(&self.atts[i]), m.brief()));
        let a = &mut self.atts[i];
        a.valid = true;
        if m.h.tc {
            return;
        }
        let tid = a.tid;
        let name = a.name.clone();
        let useful = m.h.rcode == 0 && (!m.an.is_empty() || m.ns.iter().any(|x| x.ty == NS)) || m.h.rcode == 3 && m.h.aa;
        a.useful = useful;
        if self.judge_trace {
            a.resp = Some(Box::new(m.clone()));
        }
        if m.h.rcode == 3 && m.h.aa {
            self.ctx.entry(tid).or_default().nx.insert(name);
        }
        if m.h.rcode != 0 {
            return;
        }
        for sec in m.sections() {
            let mut g: BTreeMap<(String, u16), Vec<&Rr>> = BTreeMap::new();
            for r in sec {
                g.entry((lower(&r.name), r.ty)).or_default().push(r);
            }
            for (key, v) in g {
                let mut keys: Vec<Rr> = v.iter().map(|r| r.key()).collect();
                keys.sort();
                keys.dedup();
                let mut ttls = BTreeMap::new();
                for r in &v {
                    ttls.insert(r.key(), r.ttl);
                    match &r.data {
                        Data::A(ip) => {
                            self.addr_names.entry(u32::from_be_bytes(*ip)).or_default().insert(key.0.clone());
                        }
                        Data::Name(t) if r.ty == NS => {
                            self.ns_owners.entry(lower(t)).or_default().insert(key.0.clone());
                        }
                        _ => {}
                    }
                }
                let min = v.iter().map(|r| r.ttl).min().unwrap();
                self.learnt.entry(key).or_default().push(Learnt { t: k.now, keys, ttls, min });
            }
        }
    }

    // ----- upstream servers -----

    fn later(&mut self, k: &mut Kernel, from: Addr, to: Addr, data: Vec<u8>, delay: u64) {
        if delay == 0 {
            k.net_udp(from, to, data);
            return;
        }
        self.delayed.push((from, to, data));
        k.timer(k.now + delay, DELAYED | (self.delayed.len() - 1) as u64);
    }

    fn complete(&mut self, h: usize, q: &Msg) -> Option<Msg> {
        if self.evil && self.tree.hosts[h].evil | (self.tree.hosts[h].beh == Beh::Liar) && !self.probing && q.q[0].name.starts_with("evil") && q.q[0].ty == A {
            let mut m = q.reply_to();
            m.h.aa = true;
            m.an.push(Rr::a(&q.q[0].name, 300, evil_ip(&mut self.rng)));
            return Some(m);
        }
        let mut m = if self.tree.hosts[h].beh == Beh::Abyss { self.tree.abyss_answer(h, q)? } else { self.tree.answer(h, q) };
        if self.tree.hosts[h].st(ST_CASE) {
            m.q.iter_mut().for_each(|q| q.name = q.name.to_ascii_uppercase());
        }
        if self.tree.hosts[h].st(ST_SHUFFLE) {
            self.rng.shuffle(&mut m.ns);
            self.rng.shuffle(&mut m.ar);
        }
        if self.tree.hosts[h].evil && !self.probing && self.rng.below(4) > 0 {
            let mut r = Rng::new(self.rng.next());
            self.tree.poison(&mut r, h, &mut m);
        }
        Some(m)
    }

    fn serve(&mut self, k: &mut Kernel, at: Addr, src: Addr, data: &[u8]) {
        let Some(&h) = self.tree.by_ip.get(&at.ip) else { return };
        let att = self.by_src.get(&src).copied().filter(|a| self.atts[*a].to == at);
        if self.down.get(&h).is_some_and(|t| *t > k.now) {
            k.net.count("queries to servers that are down");
            if let Some(a) = att {
                self.atts[a].down = true;
            }
            return;
        }
        let Ok(q) = Msg::decode(data) else { return };
        let Some(qu) = q.q.first().cloned() else { return };
        if self.spoof > 0 && !self.probing {
            self.spoofs(k, at, src, &q);
        }
        let host = self.tree.hosts[h].clone();
        let mut delay = if self.spoof > 0 { 3 * MS } else { 0 };
        if self.probing && host.zones.contains(&self.tree.probe) {
            let t = qu.name.starts_with('t') as usize;
            self.probe_out[t].insert(src);
            delay = 600 * MS;
        }
        if host.beh != Beh::Good {
            k.net.count("queries to misbehaving servers");
        }
        let lim = |m: &Msg, tree: &Tree| -> Vec<u8> {
            let hs = &tree.hosts[h];
            if hs.st(ST_TC) {
                let mut p = m.clone();
                p.h.tc = true;
                if hs.st(ST_TC_EMPTY) {
                    (p.an, p.ns, p.ar) = (vec![], vec![], vec![]);
                } else {
                    p.an.truncate(p.an.len() / 2);
                    p.ar.clear();
                    p.ns.truncate(1);
                }
                return p.encode_udp(512);
            }
            let e = m.encode(hs.st(ST_COMPRESS));
            if e.len() <= 512 { e } else { m.encode_udp(512) }
        };
        let mut plain = q.reply_to();
        match host.beh {
            Beh::Good | Beh::Abyss | Beh::Slow => {}
            Beh::Flaky(n) => {
                if let Some(a) = att.map(|a| &mut self.atts[a]).filter(|a| a.try_no <= n as usize) {
                    a.ignored = true;
                    return;
                }
            }
            Beh::Silent | Beh::Closed => return,
            Beh::Code(c) => {
                plain.h.rcode = c;
                self.later(k, at, src, plain.encode(true), delay);
                return;
            }
            Beh::Empty => {
                plain.h.aa = self.rng.below(2) == 0;
                self.later(k, at, src, plain.encode(true), delay);
                return;
            }
            Beh::NxNoAa => {
                plain.h.rcode = 3;
                self.later(k, at, src, plain.encode(true), delay);
                return;
            }
            Beh::Upward | Beh::SelfRef => {
                let z = if host.beh == Beh::Upward { 0 } else { host.zones[0] };
                for s in self.tree.zones[z].ns.iter().take(4) {
                    let s = &self.tree.hosts[*s];
                    plain.ns.push(Rr::ns(&self.tree.zones[z].name, 600, &s.name));
                    plain.ar.push(Rr::a(&s.name, 600, s.ip));
                }
                self.later(k, at, src, plain.encode(true), delay);
                return;
            }
            Beh::Liar => {
                if qu.name.starts_with("evil") {
                    let Some(m) = self.complete(h, &q) else { return };
                    self.later(k, at, src, lim(&m, &self.tree), delay);
                    return;
                }
                plain.h.aa = self.rng.below(4) != 0;
                let mut r = Rng::new(self.rng.next());
                self.tree.poison(&mut r, h, &mut plain);
                if plain.an.iter().chain(&plain.ns).any(|x| in_zone(&qu.name, &x.name)) {
                    plain.an.clear();
                    plain.ns.clear();
                }
                self.later(k, at, src, plain.encode_udp(512), delay);
                return;
            }
            Beh::Garbage => {
                for _ in 0..self.rng.range(1, 2) {
                    let (b, _) = hostile_msg(&mut self.rng, q.h.id, &qu.name, qu.ty, true);
                    // It must not say anything wrong but well-formed.
                    if b.len() > 3 && b[3] & 15 == 3 {
                        continue;
                    }
                    if Msg::decode(&b).is_ok_and(|m| m.an.iter().chain(&m.ns).any(|x| in_zone(&qu.name, &x.name))) {
                        continue;
                    }
                    self.later(k, at, src, b, delay);
                }
                return;
            }
            Beh::WrongId | Beh::WrongQ | Beh::NoQr => {
                let Some(mut m) = self.complete(h, &q) else { return };
                match host.beh {
                    Beh::WrongId => m.h.id ^= 1 << self.rng.below(16),
                    Beh::WrongQ => m.q[0].name = format!("x{}", m.q[0].name.trim_start_matches('.')),
                    _ => m.h.qr = false,
                }
                let b = lim(&m, &self.tree);
                self.later(k, at, src, b, delay);
                return;
            }
        }
        if host.beh == Beh::Slow {
            delay += self.read_to + 20 * MS;
        }
        let Some(m) = self.complete(h, &q) else { return };
        let b = lim(&m, &self.tree);
        self.later(k, at, src, b, delay);
    }

    /// Forged and mismatched replies that arrive before the genuine one.
    fn spoofs(&mut self, k: &mut Kernel, at: Addr, to: Addr, q: &Msg) {
        if self.rng.below(100) >= self.spoof {
            return;
        }
        // Now and then they come for longer than a reply may take.
        let long = self.rng.below(12) == 0;
        let n = if long { self.rng.range(3, 9) } else { self.rng.range(1, 3) };
        let step = self.read_to * self.rng.range(20, 90) / 100;
        for i in 0..n {
            let r = &mut self.rng;
            let mut m = q.reply_to();
            falsify(r, &mut m);
            let mut from = at;
            let mut raw = None;
            match r.below(12) {
                0 | 1 => from.ip = u32::from_be_bytes([66, 9, 9, r.range(1, 9) as u8]),
                2 => from.port = *r.pick(&[5353u16, 54, 1053]),
                10 => {
                    m.h.id ^= 0x55;
                    m.h.tc = true;
                }
                11 => {
                    // Cut off in the middle.
                    let mut b = m.encode(true);
                    let n = r.range(1, 20).min(b.len() as u64 - 1) as usize;
                    b.truncate(b.len() - n);
                    raw = Some(b);
                }
                x => mismatch(r, &mut m, x - 3),
            }
            let b = raw.unwrap_or_else(|| m.encode_udp(512));
            k.net.count("forged or mismatched replies");
            self.later(k, from, to, b, if long { i * step } else { 0 });
        }
    }
    fn tcp_serve(&mut self, k: &mut Kernel, conn: usize) {
        let Some(u) = self.conns.get_mut(&conn) else { return };
        if u.inb.len() < 2 {
            return;
        }
        let n = (u.inb[0] as usize) << 8 | u.inb[1] as usize;
        if u.inb.len() < 2 + n {
            return;
        }
        let data: Vec<u8> = u.inb.drain(..2 + n).skip(2).collect();
        let h = u.host;
        let Ok(q) = Msg::decode(&data) else { return };
        let t = self.tree.hosts[h].tcp.clone();
        if t != Tcp::Good {
            k.net.count("TCP queries to misbehaving servers");
        }
        if t == Tcp::Close {
            k.tcp_fin(conn);
            return;
        }
        if t == Tcp::Silent {
            return;
        }
        let Some(mut m) = self.complete(h, &q) else { return };
        if t == Tcp::Truncated {
            m.h.tc = true;
            m.an.truncate(m.an.len() / 2);
        }
        let mut b = m.encode(true);
        if t == Tcp::Mismatch {
            let mut m = q.reply_to();
            falsify(&mut self.rng, &mut m);
            let x = self.rng.below(7);
            mismatch(&mut self.rng, &mut m, x);
            b = m.encode(true);
            k.net.count("mismatched replies over TCP");
        }
        if t == Tcp::Garbage {
            b = hostile_msg(&mut self.rng, q.h.id ^ 1, &q.q[0].name, q.q[0].ty, true).0;
        }
        let mut s = (b.len() as u16).to_be_bytes().to_vec();
        s.extend(b);
        if t == Tcp::Partial {
            let n = self.rng.range(1, s.len() as u64 - 1) as usize;
            s.truncate(n);
        }
        if t == Tcp::Slow {
            // One byte now and then.
            s.truncate(1);
        }
        self.conns.get_mut(&conn).unwrap().sent.extend(&s);
        if t == Tcp::Drip {
            let step = self.read_to * self.rng.range(20, 90) / 100;
            let from = self.rng.below(s.len() as u64 - 1) as usize;
            k.tcp_send(conn, &s[..from]);
            for (i, b) in s[from..].iter().take(12).enumerate() {
                self.drips.push((conn, *b));
                k.timer(k.now + i as u64 * step + 1, DRIP | (self.drips.len() - 1) as u64);
            }
            return;
        }
        match self.rng.below(3) {
            0 if s.len() > 4 => {
                k.tcp_send(conn, &s[..1]);
                k.tcp_send(conn, &s[1..3]);
                k.tcp_send(conn, &s[3..]);
            }
            _ => k.tcp_send(conn, &s),
        }
        if self.rng.below(2) == 0 && t != Tcp::Slow {
            k.tcp_fin(conn);
        }
    }

    // ----- replies to clients -----

    fn op_start(&self, o: &Op) -> u64 {
        if o.tcp { o.accepted.unwrap_or(0) } else { o.first_queued }
    }

    /// Finds what the records can have been learnt from; returns a complaint otherwise.
    fn vet(&self, k: &Kernel, name: &str, ty: u16, got: &[Rr], start: u64, part: bool) -> Result<(), (&'static str, &'static str, String)> {
        let mut keys: Vec<Rr> = got.iter().map(|r| r.key()).collect();
        keys.sort();
        let none = vec![];
        let evs = self.learnt.get(&(lower(name), ty)).unwrap_or(&none);
        let slack = 60 * MS + k.total_stall;
        let (mut known, mut fresh) = (false, false);
        for e in evs {
            let same = if part { keys.iter().all(|x| e.keys.contains(x)) } else { keys == e.keys };
            if !same {
                continue;
            }
            known = true;
            if e.exp() + slack < start {
                continue;
            }
            fresh = true;
            let now = e.t + slack >= start && got.iter().all(|r| r.ttl <= e.ttls[&r.key()]);
            let left = e.exp().saturating_add(slack).saturating_sub(start);
            let cached = got.iter().all(|r| (r.ttl as u64).saturating_mul(SEC) <= left && r.ttl <= e.min);
            if now || cached {
                return Ok(());
            }
        }
        let g = brief_rrs(got);
        if fresh {
            let l: Vec<String> = evs.iter().map(|e| format!("at {:.3} ms with TTL {}", e.t as f64 / 1e6, e.min)).collect();
            return Err(("C10", "ttl-too-high", format!("the TTL of {:?} is higher than the time left (learnt {:?}; the query came at {:.3} ms)", g, l, start as f64 / 1e6)));
        }
        if known {
            let l: Vec<String> = evs.iter().map(|e| format!("at {:.3} ms with TTL {}", e.t as f64 / 1e6, e.min)).collect();
            return Err(("C10", "expired-returned", format!("{:?} had expired (learnt {:?}) when the query came at {:.3} ms", g, l, start as f64 / 1e6)));
        }
        let sets: Vec<Vec<String>> = evs.iter().map(|e| brief_rrs(&e.keys)).collect();
        Err(("C09", "not-published", format!("{:?} is not what servers published for {} {}: {:?}", g, name, ty, &sets[..sets.len().min(4)])))
    }

    fn reply(&mut self, k: &mut Kernel, i: usize, m: Msg, raw_len: usize) {
        let tid = k.cur;
        self.gap(k, tid, false);
        let cx = self.ctx.remove(&tid).unwrap_or_default();
        let o = self.c.ops[i].clone();
        let Some(q) = o.query().cloned() else { return };
        if m.h.rcode == 1 && m.q.is_empty() {
            return;
        }
        self.served += 1;
        let start = self.op_start(&o);
        let now = k.now;
        let what = || format!("the reply to {}", o.brief());
        self.used_servers(k, &cx, start);
        if self.judge_trace {
            self.traced(k, &o, &q, &m, &cx);
        }
        let poison = m.an.iter().chain(&m.ns).find_map(|r| match &r.data {
            Data::A([66, 7, ..]) => Some("C13"),
            Data::A([66, ..]) => Some("C14"),
            Data::Name(n) if n.contains("spoofed") => Some("C13"),
            Data::Name(n) if n.contains("evil") => Some("C14"),
            _ => None,
        });
        if let Some(p) = poison {
            k.violation_all(&[p, "C09"], "false-record-returned", format!("{} has a record that {}: {}", what(), if p == "C13" { "a forged reply contained" } else { "a server of another zone made up" }, m.brief()));
            return;
        }
        // Chain of aliases, then the records.
        let mut cur = lower(&q.name);
        let mut pos = 0;
        let mut sets = vec![];
        let mut bad = None;
        if q.ty != CNAME {
            while pos < m.an.len() && m.an[pos].ty == CNAME && lower(&m.an[pos].name) == cur {
                if let Err(e) = self.vet(k, &cur, CNAME, &m.an[pos..pos + 1], start, false) {
                    bad.get_or_insert(e);
                }
                sets.push((cur.clone(), CNAME));
                cur = lower(m.an[pos].target().unwrap());
                pos += 1;
            }
        }
        let rest = &m.an[pos..];
        match m.h.rcode {
            0 => {
                k.probe("NoError answers");
                if pos > 0 {
                    k.probe("answers with aliases");
                }
                if let Some(x) = rest.iter().find(|x| lower(&x.name) != cur || x.ty != q.ty) {
                    bad.get_or_insert(("C09", "unrelated-record", format!("{:?} does not belong into the answer", brief_rrs(std::slice::from_ref(x)))));
                } else if rest.is_empty() && !m.h.tc {
                    bad.get_or_insert(("C09", "no-records", format!("there are no records of the type asked for: {}", m.brief())));
                } else if !rest.is_empty() {
                    if let Err(e) = self.vet(k, &cur, q.ty, rest, start, m.h.tc) {
                        bad.get_or_insert(e);
                    }
                    sets.push((cur.clone(), q.ty));
                }
                if m.h.tc && !o.tcp {
                    self.truncated(k, &o, &m, rest, &cur, q.ty, cx.atts.is_empty(), raw_len);
                }
            }
            3 => {
                k.probe("NxDomain answers");
                // Some server denied the existence of the name or of its alias target.
                let mut names = BTreeSet::from([lower(&q.name)]);
                let mut todo = vec![lower(&q.name)];
                while let Some(n) = todo.pop() {
                    for e in self.learnt.get(&(n, CNAME)).into_iter().flatten() {
                        for r in &e.keys {
                            let t = lower(r.target().unwrap());
                            if names.insert(t.clone()) {
                                todo.push(t);
                            }
                        }
                    }
                }
                if !cx.nx.iter().any(|n| names.contains(n)) {
                    let p = self.props(&["C09"]);
                    k.violation_all(&p, "nxdomain-unfounded", format!("{} denies the existence of the name although no authoritative server did: {}", what(), m.brief()));
                }
            }
            2 => k.probe("ServFail answers"),
            c => k.violation("C09", "unexpected-code", format!("{} has code {}", what(), c)),
        }
        if m.h.rcode != 0 && !m.an.is_empty() && m.h.rcode == 2 {
            bad.get_or_insert(("C09", "records-in-failure", format!("records in a failure: {}", m.brief())));
        }
        if let Some((p, c, s)) = bad {
            k.violation(p, c, format!("{}: {}", what(), s));
            return;
        }
        self.expected(k, &o, &q, &m, &cx, start);
        // Repetitions are answered from the cache.
        let key = (lower(&q.name), q.ty);
        if !cx.atts.is_empty() {
            for d in self.done.iter().rev().filter(|d| d.key == key && d.end <= start) {
                let slack = 60 * MS + k.total_stall;
                let live = d.sets.iter().all(|s| {
                    let v = &self.learnt[s];
                    let mut v = v.iter().filter(|e| e.exp() + slack >= d.start);
                    let first = v.clone().next().map(|e| &e.keys);
                    v.all(|e| e.exp() > now + slack && Some(&e.keys) == first)
                });
                if live {
                    let l: Vec<String> = d.sets.iter().flat_map(|s| self.learnt[s].iter().filter(|e| e.exp() + slack >= d.start).map(move |e| format!("{} {} at {:.3} ms with TTL {}", s.0, s.1, e.t as f64 / 1e6, e.min))).collect();
                    k.violation("C10", "not-cached", format!("{} caused {} upstream queries although the same query was answered at {:.3} ms and nothing of that answer has expired: {:?}", what(), cx.atts.len(), d.end as f64 / 1e6, l));
                    break;
                }
            }
        } else if m.h.rcode == 0 {
            k.probe("answers from the cache");
        }
        if m.h.rcode == 0 && !m.h.tc {
            self.done.push(Done { key, start, end: now, sets });
        }
    }

    /// Does the trace tell what was done?
    fn traced(&self, k: &mut Kernel, o: &Op, q: &Q, m: &Msg, cx: &Ctx) {
        let tr = trace::traces(&cx.out);
        let t = k.case.p("trace", 0) & 7;
        let shown = t != 0 && matches!(log_level(&k.case), "info" | "debug" | "trace");
        if !shown {
            if !tr.is_empty() {
                k.violation("C23", "trace-unwanted", format!("a trace was printed although tracing is {} and the log level is {}", if t == 0 { "off" } else { "on" }, log_level(&k.case)));
            }
            return;
        }
        let f = trace::Facts {
            id: m.h.id,
            q,
            reply: m,
            sent: cx.atts.iter().map(|a| &self.atts[*a]).map(|a| (a.name.as_str(), a.ty, a.to.ip.to_be_bytes(), a.resp.as_deref())).collect(),
            hurt: cx.fault,
            verbose: t & 2 != 0,
            escapes: if t & 1 == 0 || k.case.p("force_color", 0) == 0 { Some(false) } else { Some(true) },
        };
        k.probe("traces judged");
        let knows = |ns: &str, ip: [u8; 4]| self.learnt.get(&(ns.to_string(), A)).into_iter().flatten().any(|e| e.keys.iter().any(|r| r.data == Data::A(ip))) || ROOTS.iter().position(|r| *r == ip).is_some_and(|i| ns == format!("{}.root-servers.net.", (b'a' + i as u8) as char));
        if let Err((c, s)) = trace::judge(&tr, &f, &knows) {
            k.violation("C23", c, format!("the lookup for {}: {}", o.brief(), s));
            k.logf(|| format!("the trace in question: {:#?}", tr));
        }
    }

    /// Were the servers chosen by data that was valid?
    fn used_servers(&mut self, k: &mut Kernel, cx: &Ctx, start: u64) {
        let slack = 60 * MS + k.total_stall;
        for a in cx.atts.iter().map(|a| &self.atts[*a]) {
            if ROOTS.iter().any(|r| u32::from_be_bytes(*r) == a.to.ip) {
                continue;
            }
            let names = self.addr_names.get(&a.to.ip);
            let valid = |n: &str, ty: u16, f: &dyn Fn(&Rr) -> bool| self.learnt.get(&(n.to_string(), ty)).into_iter().flatten().any(|e| e.t <= a.t && e.exp() + slack >= start && e.keys.iter().any(f));
            let ip = a.to.ip.to_be_bytes();
            let ok = names.into_iter().flatten().any(|n| {
                valid(n, A, &|r| r.data == Data::A(ip))
                    && self.ns_owners.get(n).into_iter().flatten().any(|z| in_zone(&a.name, z) && valid(z, NS, &|r| r.target().map(lower).as_deref() == Some(n)))
            });
            if !ok {
                k.violation("C10", "expired-server-used", format!("a query for {} {} was sent to {} ({:?}) at {:.3} ms, for a client query of {:.3} ms; no records that were valid then lead to that server", a.name, a.ty, a.to, names, a.t as f64 / 1e6, start as f64 / 1e6));
                return;
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn truncated(&self, k: &mut Kernel, o: &Op, m: &Msg, rest: &[Rr], cur: &str, ty: u16, cached: bool, raw_len: usize) {
        k.probe("truncated answers");
        // The complete set, if there is only one candidate.
        let got: Vec<Rr> = rest.iter().map(|r| r.key()).collect();
        let c: BTreeSet<&Vec<Rr>> = self.learnt.get(&(cur.to_string(), ty)).into_iter().flatten().map(|e| &e.keys).filter(|s| got.iter().all(|g| s.contains(g))).collect();
        if c.len() != 1 || rest.is_empty() {
            return;
        }
        let left: Vec<&Rr> = c.first().unwrap().iter().filter(|x| !got.contains(x)).collect();
        if left.is_empty() && cached {
            k.violation("C03", "needless-truncation", format!("the reply to {} is flagged as truncated but complete ({} bytes)", o.brief(), raw_len));
        }
        let plain = { let mut p = m.clone(); p.ends.clear(); p.encode(false).len() == raw_len };
        let size = |x: &Rr| { let mut o = vec![]; put_rr(&mut o, x, &mut None); o.len() };
        if plain && !left.is_empty() && left.iter().all(|x| raw_len + size(x) <= 512) {
            k.violation("C03", "truncated-early", format!("the truncated reply to {} has {} bytes; the next record would fit", o.brief(), raw_len));
        }
        if !left.is_empty() && (!m.ns.is_empty() || !m.ar.is_empty()) {
            k.violation("C03", "not-leading", format!("the truncated reply to {} lacks answers but has later records: {}", o.brief(), m.brief()));
        }
    }

    /// Is the outcome the one that the name space defines, given what went wrong?
    fn expected(&mut self, k: &mut Kernel, o: &Op, q: &Q, m: &Msg, cx: &Ctx, start: u64) {
        let truth = self.tree.truth(&q.name, q.ty, self.max_cname, self.max_cname + 1);
        if truth == BTreeSet::from([Truth::Long]) && m.h.rcode == 0 {
            k.violation("C19", "alias-chain-too-long", format!("the reply to {} follows more aliases than the configured {}: {}", o.brief(), self.max_cname, m.brief()));
        }
        let rec = self.recover.start > 0 && o.i >= self.recover.start;
        if !(self.strict || rec) || truth.len() != 1 || self.life.is_some() {
            return;
        }
        let want = match truth.first().unwrap() {
            Truth::Answer => 0,
            Truth::Nx => 3,
            _ => return,
        };
        if m.h.rcode == want {
            return;
        }
        let hurt = cx.fault
            || k.stalled_in(start, k.now) > 50 * MS
            || cx.atts.iter().map(|a| &self.atts[*a]).any(|a| a.down || a.fault || a.host.is_none() || a.host.is_some_and(|h| !self.tree.hosts[h].bad() && !a.valid && !a.ignored));
        if hurt && !rec {
            k.probe("failures excused by faults");
            return;
        }
        let distinct: BTreeSet<(Addr, &str, u16)> = cx.atts.iter().map(|a| &self.atts[*a]).map(|a| (a.to, a.name.as_str(), a.ty)).collect();
        if cx.atts.len() >= 150 && distinct.len() * self.retries.max(1) >= 150 {
            k.probe("failures excused by the limit on work");
            return;
        }
        let p = if m.h.rcode == 3 || want == 3 && m.h.rcode == 0 { self.props(&["C09", "C11"]) } else { self.props(&["C11"]) };
        let l: Vec<String> = cx.atts.iter().map(|a| &self.atts[*a]).map(|a| format!("{}{} {} {}{}", if a.udp { "" } else { "TCP " }, a.to, a.name, a.ty, if a.useful { "" } else { " -" })).collect();
        let p2: Vec<&str> = if rec { p.iter().copied().chain(["C02"]).collect() } else { p.iter().copied().collect() };
        k.violation_all(&p2, "not-resolved", format!("{} was answered with code {} instead of {} although every zone has a working server ({}); upstream queries: {:?}", o.brief(), m.h.rcode, want, if rec { "after the faults had stopped" } else { "within the configured limits" }, l));
    }

    fn ids_check(&self, k: &mut Kernel) {
        let v = &self.ids;
        if v.len() >= 7 {
            let d: BTreeSet<u16> = v.windows(2).map(|w| w[1].wrapping_sub(w[0])).collect();
            if d.len() == 1 {
                k.violation("C13", "predictable-ids", format!("the IDs of upstream queries follow a pattern: {:?}", &v[..7]));
            }
        }
        if v.len() >= 60 {
            let and = v.iter().fold(0xffffu16, |a, b| a & b);
            let or = v.iter().fold(0u16, |a, b| a | b);
            let small = v.windows(2).filter(|w| w[1].wrapping_sub(w[0]).wrapping_add(64) < 129).count();
            if and != 0 || or != 0xffff || small * 2 > v.len() {
                k.violation("C13", "predictable-ids", format!("the IDs of upstream queries are not random: {:?}", &v[..12]));
            }
        }
    }
}

fn k_tid(a: &Att) -> Tid {
    a.tid
}

fn panics(k: &Kernel) -> String {
    format!("{:?}", k.panics.iter().map(|p| &p.2).take(2).collect::<Vec<_>>())
}

impl World for RsWorld {
    fn start(&mut self, k: &mut Kernel) {
        k.ch.faults_on = false;
        if self.life.is_some() {
            k.ch.faults_on = true;
        }
        let conf = resolver_conf(&k.case);
        k.fs.files.insert("/sim/conf.json".into(), serde_json::to_vec(&conf).unwrap());
        k.timer(20 * SEC, WORLD | 99);
    }
    fn timer(&mut self, k: &mut Kernel, tok: u64) {
        if self.dead {
            return;
        }
        let i = (tok & 0xff_ffff) as usize;
        match tok >> 56 {
            5 => {
                let (a, b, d) = self.delayed[i].clone();
                // (Not what comes late for an earlier user of the port.)
                if Msg::decode(&d).is_ok_and(|m| m.q.first().is_some_and(|q| q.name.ends_with(".probe.") && q.name != "warm.probe.")) {
                    self.probe_out[0].remove(&b);
                    self.probe_out[1].remove(&b);
                }
                k.net_udp(a, b, d);
                return;
            }
            10 => {
                let (c, b) = self.drips[i];
                k.tcp_send(c, &[b]);
                return;
            }
            6 => {
                let e = self.events[i].clone();
                if self.phase >= 3 {
                    return;
                }
                if e["ev"] == "ver" {
                    let s = e["set"].as_u64().unwrap_or(0) as usize % self.tree.sets.len().max(1);
                    if let Some(s) = self.tree.sets.get_mut(s) {
                        s.version += 1;
                        k.probe("changes of published data");
                    }
                } else {
                    k.probe("server outages");
                    for h in e["hosts"].as_array().into_iter().flatten() {
                        self.down.insert(h.as_u64().unwrap_or(0) as usize, k.now + e["dur"].as_u64().unwrap_or(0) * US);
                    }
                }
                return;
            }
            9 => {}
            _ => {
                self.c.timer(k, tok);
                return;
            }
        }
        let n = (tok & 0xff) as u32;
        if let Some(l) = self.life.as_mut().filter(|l| !l.nothing_fails()) {
            if n == 99 || n as u64 == life::LIFE_END {
                l.end(k, self.up, self.dead, panics(k));
            }
            return;
        }
        if n == 99 {
            if !self.ready {
                k.violation_all(&["C06", "C19", "C01"], "not-started", "the resolver did not bind its addresses".into());
                k.stop = true;
            }
            return;
        }
        self.next(k, n);
    }
    fn bound(&mut self, k: &mut Kernel, tcp: bool, at: Addr) {
        if at == server_ips(&k.case, tcp).1 {
            self.up[tcp as usize] = true;
        }
        if let Some(l) = self.life.as_mut().filter(|l| !l.nothing_fails()) {
            if at.port == server_ips(&k.case, tcp).1.port && l.bound(k) {
                let ops = std::mem::take(&mut self.ops);
                l.start_ops(k, &mut self.c, &ops);
            }
            return;
        }
        if self.up == [true, true] && !self.ready {
            self.begin(k);
        }
    }
    fn bind_errno(&mut self, tcp: bool, at: Addr) -> Option<i32> {
        self.life.as_mut().and_then(|l| l.bind_errno(tcp, at))
    }
    fn bind_failed(&mut self, k: &mut Kernel, tcp: bool, at: Addr) {
        if let (Some(l), true) = (&mut self.life, at.port != 0) {
            l.note(k, format!("binding {} for {} failed", at, if tcp { "TCP" } else { "UDP" }));
        }
    }
    fn listen_errno(&mut self, k: &mut Kernel) -> Option<i32> {
        let l = self.life.as_mut()?;
        let e = l.listen_errno()?;
        l.note(k, "listening failed".into());
        Some(e)
    }
    fn sockopt_errno(&mut self, k: &mut Kernel, dgram: bool, local: Addr) -> Option<i32> {
        let port = self.c.udp.port;
        let l = self.life.as_mut().filter(|_| local.port == port)?;
        let e = l.sockopt_errno(dgram, local)?;
        l.note(k, "setting the timeout of the UDP socket failed".into());
        Some(e)
    }
    fn socket_errno(&mut self, _k: &mut Kernel, dgram: bool) -> Option<i32> {
        self.life.as_mut().and_then(|l| l.socket_errno(dgram))
    }
    fn spawn_fails(&mut self, k: &mut Kernel, n: u64) -> bool {
        self.life.as_mut().is_some_and(|l| l.spawn_fails(k, n))
    }
    fn spawn_delays(&mut self, n: u64) -> (u64, u64) {
        self.life.as_mut().map(|l| l.spawn_delays(n)).unwrap_or((0, 0))
    }
    fn udp_port(&mut self, at: Addr) -> PortKind {
        if is_client_ip(at.ip) {
            return PortKind::Open;
        }
        match self.tree.by_ip.get(&at.ip) {
            Some(h) if self.tree.hosts[*h].beh == Beh::Closed || at.port != 53 => PortKind::Closed,
            Some(_) => PortKind::Open,
            None => PortKind::Blackhole,
        }
    }
    fn udp_in(&mut self, k: &mut Kernel, at: Addr, src: Addr, data: &[u8]) {
        if !is_client_ip(at.ip) {
            self.serve(k, at, src, data);
        }
    }
    fn udp_queued(&mut self, k: &mut Kernel, at: Addr, src: Addr, data: &[u8]) {
        if at.port == self.c.udp.port {
            self.c.udp_queued(k, src, data);
        }
    }
    fn udp_taken(&mut self, k: &mut Kernel, at: Addr, src: Addr, data: &[u8]) {
        if at.port == self.c.udp.port {
            self.c.udp_taken(k, src, data);
            return;
        }
        let Some(&i) = self.by_src.iter().find(|(a, _)| a.port == at.port).map(|(_, i)| i) else { return };
        self.atts[i].anything = true;
        let a = &self.atts[i];
        if src != a.to || data.len() > 512 {
            return;
        }
        let Ok(m) = Msg::decode(data) else { return };
        if m.h.qr && m.h.id == a.id && m.q.len() == 1 && lower(&m.q[0].name) == a.name && m.q[0].ty == a.ty && m.q[0].class == 1 {
            self.received(k, i, &m);
        }
    }
    fn udp_sent(&mut self, k: &mut Kernel, src: Addr, dst: Addr, data: &[u8]) {
        if src.port == self.c.udp.port {
            if src != self.c.server_of(dst, false) && !is_local_ip(dst.ip) {
                k.violation("C01", "wrong-source", format!("a datagram was sent to {} from {} instead of {}", dst, src, self.c.server_of(dst, false)));
            }
            if let Got::Reply(i, m) = self.c.udp_sent(k, dst, data) {
                self.reply(k, i, *m, data.len());
            } else {
                self.ctx.remove(&k.cur);
            }
            return;
        }
        if self.life.is_some() && (is_any(dst.ip) || is_local_ip(dst.ip) || dst.ip == life::FOREIGN) {
            // What wakes up the server.
            return;
        }
        if is_client_ip(dst.ip) || is_local_ip(dst.ip) {
            k.violation("C01", "sent-to-stranger", format!("a datagram was sent to {} from {}", dst, src));
            return;
        }
        if let Some(i) = self.upstream(k, src, dst, data, true) {
            self.by_src.insert(src, i);
        }
    }
    fn tcp_connecting(&mut self, k: &mut Kernel, conn: usize, to: Addr) {
        if is_local_ip(to.ip) || to.ip == life::FOREIGN {
            return;
        }
        let tid = k.cur;
        self.gap(k, tid, false);
        let b = to.ip.to_be_bytes();
        if b[0] == 66 {
            k.violation_all(if b[1] == 7 { &["C13", "C09"] } else { &["C14", "C09"] }, "false-server-used", format!("a connection to {} was opened", to));
        }
        // The query follows; until then the attempt is known by its connection.
        let cx = self.ctx.entry(tid).or_default();
        let Some(p) = cx.last.map(|p| self.atts[p].clone()) else {
            k.violation("C09", "connection-without-query", format!("a connection to {} was opened without a truncated reply", to));
            return;
        };
        let i = self.atts.len();
        let src = Addr { ip: HOST_IP, port: 0 };
        self.atts.push(Att { t: k.now, udp: false, src, to, host: self.tree.by_ip.get(&to.ip).copied(), ignored: false, try_no: 1, down: false, anything: true, valid: false, useful: false, resp: None, ..p });
        cx.atts.push(i);
        cx.last = Some(i);
        cx.conn = Some(conn);
        self.conns.insert(conn, Up { host: self.tree.by_ip.get(&to.ip).copied().unwrap_or(0), inb: vec![], tid, att: Some(i), sent: vec![], took: 0 });
        k.probe("upstream TCP queries");
    }
    fn tcp_syn(&mut self, k: &mut Kernel, conn: usize, at: Addr) -> SynReply {
        if let (Some(l), life::FOREIGN) = (&self.life, at.ip) {
            return l.syn(at);
        }
        let Some(&h) = self.tree.by_ip.get(&at.ip) else { return SynReply::Ignore };
        if self.down.get(&h).is_some_and(|t| *t > k.now) {
            if let Some(a) = self.conns.get(&conn).and_then(|u| u.att) {
                self.atts[a].down = true;
            }
            return SynReply::Ignore;
        }
        if at.port != 53 {
            return SynReply::Refuse;
        }
        match self.tree.hosts[h].tcp {
            Tcp::Refuse => SynReply::Refuse,
            Tcp::Ignore => SynReply::Ignore,
            _ => SynReply::Accept,
        }
    }
    fn tcp_took(&mut self, k: &mut Kernel, conn: usize, n: usize) {
        let Some(u) = self.conns.get_mut(&conn) else { return };
        u.took += n;
        if u.sent.len() < 2 || u.took != u.sent.len() {
            return;
        }
        let (i, raw) = (u.att, u.sent[2..].to_vec());
        let n = (u.sent[0] as usize) << 8 | u.sent[1] as usize;
        if n != raw.len() {
            return;
        }
        if let (Some(i), Ok(m)) = (i, Msg::decode(&raw)) {
            let a = &self.atts[i];
            if m.h.qr && m.h.id == a.id && !m.h.tc && m.q.len() == 1 && lower(&m.q[0].name) == a.name && m.q[0].ty == a.ty {
                self.received(k, i, &m);
            }
        }
    }
    fn tcp_established(&mut self, k: &mut Kernel, conn: usize) {
        self.c.tcp_established(k, conn);
    }
    fn tcp_accepted(&mut self, k: &mut Kernel, conn: usize) {
        self.c.tcp_accepted(k, conn);
    }
    fn tcp_arrived(&mut self, k: &mut Kernel, conn: usize, n: usize) {
        self.c.tcp_arrived(k, conn, n);
    }
    fn tcp_wrote(&mut self, k: &mut Kernel, conn: usize, data: &[u8]) {
        if let Some(u) = self.conns.get(&conn) {
            // An upstream query: what is it?
            let (i, first) = (u.att, u.inb.is_empty() && u.sent.is_empty());
            if let (Some(i), true) = (i, first) {
                if data.len() >= 14 {
                    match Msg::decode(&data[2..]) {
                        Ok(m) if m.q.len() == 1 && !m.h.qr => {
                            let a = &mut self.atts[i];
                            a.id = m.h.id;
                            a.name = lower(&m.q[0].name);
                            a.ty = m.q[0].ty;
                        }
                        _ if data.len() == 2 + ((data[0] as usize) << 8 | data[1] as usize) => k.violation("C03", "malformed-query", format!("the TCP query to {} is not a message: {}", self.atts[i].to, hex(data))),
                        _ => {}
                    }
                }
            }
            return;
        }
        let tid = k.cur;
        match self.c.tcp_wrote(k, conn, data) {
            Got::Reply(i, m) => {
                let n = self.c.ops[i].out.len() - 2;
                self.reply(k, i, *m, n);
            }
            Got::No => {
                let _ = tid;
            }
        }
    }
    fn tcp_closed(&mut self, k: &mut Kernel, conn: usize) {
        if self.conns.contains_key(&conn) {
            return;
        }
        self.c.tcp_closed(k, conn);
        self.ctx.remove(&k.cur);
    }
    fn tcp_refused(&mut self, k: &mut Kernel, conn: usize) {
        self.c.tcp_refused(k, conn);
    }
    fn tcp_data(&mut self, k: &mut Kernel, conn: usize, data: &[u8]) {
        if let Some(u) = self.conns.get_mut(&conn) {
            u.inb.extend_from_slice(data);
            self.tcp_serve(k, conn);
            return;
        }
        self.c.tcp_data(conn, data.len());
    }
    fn tcp_fin(&mut self, k: &mut Kernel, conn: usize) {
        k.tcp_fin(conn);
    }
    fn fault(&mut self, k: &mut Kernel, kind: Kd, tid: Tid, peer: FaultPeer) {
        self.c.fault(kind, tid, peer);
        let client = match peer {
            FaultPeer::Conn(c) => !self.conns.contains_key(&c),
            FaultPeer::Udp { local, peer } => local.port == self.c.udp.port || self.c.is_client(peer),
            _ => false,
        };
        if client {
            if let (Kd::SendErr, FaultPeer::Udp { .. }) = (kind, peer) {
                self.ctx.remove(&tid);
            }
            return;
        }
        if kind != Kd::Eintr {
            let cx = self.ctx.entry(tid).or_default();
            cx.fault = true;
            if let Some(l) = cx.last {
                self.atts[l].fault = true;
            }
        }
        let _ = k;
    }
    fn output(&mut self, k: &mut Kernel, fd: i32, data: &[u8]) {
        if !self.judge_trace || fd != 1 {
            return;
        }
        let (tid, s) = (k.cur, String::from_utf8_lossy(data));
        let cx = self.ctx.entry(tid).or_default();
        if self.printer != tid && cx.out.contains("Lookup trace") && !trace::is_head(trace::strip(&s).lines().next().unwrap_or("")) {
            k.violation("C23", "trace-interleaved", format!("what thread {} prints is mixed up with what thread {} prints: {:?}", tid, self.printer, &s[..s.len().min(80)]));
        }
        cx.out.push_str(&s);
        self.printer = tid;
    }
    fn exited(&mut self, k: &mut Kernel, code: i32) {
        self.dead = true;
        if let Some(l) = self.life.as_mut().filter(|l| !l.nothing_fails()) {
            l.exited(k, &self.c, self.up, code, panics(k));
            k.stop = true;
            return;
        }
        let s = format!("the process exited with status {} while serving; panics {}", code, panics(k));
        k.violation_all(&["C01", "C02", "C06", "C09", "C11", "C12", "C15", "C19"], "process-died", s);
        k.stop = true;
    }
    fn finish(&mut self, k: &mut Kernel) {
        if self.life.as_ref().is_some_and(|l| !l.nothing_fails()) {
            return;
        }
        if !self.ready {
            if k.violations.is_empty() {
                k.violation_all(&["C06", "C19", "C01"], "not-started", "the resolver never bound its addresses".into());
            }
            return;
        }
        self.ids_check(k);
        let dead = self.dead || self.phase < 4;
        if !dead {
            for o in &self.c.ops {
                let lost = !o.tcp && matches!(o.cls, Cls::Query { .. }) && (o.replies.len() as u32 + o.excused) < o.taken;
                if lost {
                    k.violation_all(&["C15", "C12", "C11"], "unanswered", format!("{} was received {} times and answered {} times; panics {}", o.brief(), o.taken, o.replies.len(), panics(k)));
                }
            }
        }
        self.c.finish(k, self.recover.clone(), dead);
    }
}

/// Fills a reply with data that must not be believed.
fn falsify(r: &mut Rng, m: &mut Msg) {
    let qn = m.q[0].name.clone();
    let ip = spoof_ip(r);
    match r.below(6) {
        0 | 1 => {
            m.h.aa = true;
            let x = if m.q[0].ty == A { Rr::a(&qn, 3600, ip) } else { Rr::cname(&qn, 3600, "spoofed.net.") };
            m.an.push(x);
        }
        2 | 3 => {
            let zn = if labels(&qn) > 1 && r.below(2) == 0 { parent(&qn) } else { qn.clone() };
            m.ns.push(Rr::ns(&zn, 3600, "spoofed.net."));
            m.ar.push(Rr::a("spoofed.net.", 3600, ip));
            if zn != "." {
                let hn = format!("spoofed.{}", zn);
                if hn.len() < 250 {
                    m.ns.push(Rr::ns(&zn, 3600, &hn));
                    m.ar.push(Rr::a(&hn, 3600, ip));
                }
            }
        }
        4 => {
            m.h.aa = true;
            m.h.rcode = 3;
        }
        _ => m.h.rcode = *r.pick(&[1, 2, 5]),
    }
}

/// Makes the reply one to something else, in one of seven ways.
fn mismatch(r: &mut Rng, m: &mut Msg, how: u64) {
    let (qn, ty) = (m.q[0].name.clone(), m.q[0].ty);
    match how {
        0 | 1 => m.h.id = m.h.id.wrapping_add(*r.pick(&[1u16, 0xffff, 0x100, 0x8000])),
        2 => m.q[0].name = if labels(&qn) > 1 { parent(&qn) } else { format!("x{}", qn.trim_start_matches('.')) },
        3 => m.q[0].ty = if ty == A { MX } else { A },
        4 => m.h.qr = false,
        5 => m.q.clear(),
        _ => m.q.push(Q { name: "two.net.".into(), ty: A, class: 1 }),
    }
}
