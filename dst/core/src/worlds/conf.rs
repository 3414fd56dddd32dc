//! Starting the servers with sound and unsound configuration files, read under faults.
use super::{ns, rs, zone};
use crate::case::*;
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use crate::wire::*;
use serde_json::{json, Value};

const WORLD: u64 = 9 << 56;

/// What kind of value a setting has.
#[derive(Clone, Copy, PartialEq)]
enum Ty {
    /// A number of seconds, tries, servers: at least one.
    Count,
    Threads,
    Port,
    Level,
    Ip,
    Bool,
    Ttl,
    Name,
    File,
    Group,
}

fn settings(prog: &str, conf: &Value) -> Vec<(String, Ty)> {
    use Ty::*;
    let mut v: Vec<(String, Ty)> = [
        ("/log_level", Level),
        ("/udp_server", Group),
        ("/udp_server/address", Ip),
        ("/udp_server/port", Port),
        ("/udp_server/write_timeout", Count),
        ("/udp_server/threads", Threads),
        ("/tcp_server", Group),
        ("/tcp_server/address", Ip),
        ("/tcp_server/port", Port),
        ("/tcp_server/read_timeout", Count),
        ("/tcp_server/write_timeout", Count),
        ("/tcp_server/threads", Threads),
    ]
    .iter()
    .map(|(p, t)| (p.to_string(), *t))
    .collect();
    let more: &[(&str, Ty)] = if prog == "rsconf" {
        &[
            ("/resolver", Group),
            ("/resolver/max_ns_queried", Count),
            ("/resolver/max_ns_retries", Count),
            ("/resolver/max_cname_redir", Count),
            ("/resolver/read_timeout", Count),
            ("/resolver/write_timeout", Count),
            ("/resolver/cache_conf", Group),
            ("/resolver/cache_conf/clean_period", Count),
            ("/resolver/cache_conf/entries_cleaned", Count),
            ("/resolver/trace_conf", Group),
            ("/resolver/trace_conf/silent", Bool),
            ("/resolver/trace_conf/verbose", Bool),
            ("/resolver/trace_conf/color", Bool),
        ]
    } else {
        &[("/zone", Group), ("/zone/starting_ttl", Ttl), ("/zone/zone", Name), ("/zone/file", File), ("/zone/sub_zones", Group)]
    };
    v.extend(more.iter().map(|(p, t)| (p.to_string(), *t)));
    if let Some(subs) = conf["zone"]["sub_zones"].as_array() {
        for i in 0..subs.len() {
            for (n, t) in [("starting_ttl", Ttl), ("min_ttl", Ttl), ("zone", Name), ("file", File)] {
                v.push((format!("/zone/sub_zones/{}/{}", i, n), t));
            }
        }
    }
    v
}

fn base(c: &Case) -> (Value, Option<zone::Zone>) {
    if c.scenario == "rsconf" {
        return (rs::resolver_conf(c), None);
    }
    let z = zone::generate(c.p("zone_seed", 0) as u64, &ns::zone_opts(c));
    let (u, t) = ns::server_conf(c);
    (json!({"log_level": ns::log_level(c), "udp_server": u, "tcp_server": t, "zone": z.conf}), Some(z))
}

pub fn generate(prog: &str, seed: u64) -> Case {
    let mut rr = Rng::new(hash2(seed, hash_bytes(41, prog.as_bytes())));
    let r = &mut rr;
    let mut c = Case { scenario: prog.into(), profile: "any".into(), seed, ..Default::default() };
    c.set("zone_seed", r.below(1 << 40) as i64);
    c.set("names", r.range(1, 4) as i64);
    c.set("bigzone", 0);
    c.set("subs", *r.pick(&[0, 1, 3]));
    c.set("udp_threads", r.range(1, 3) as i64);
    c.set("tcp_threads", r.range(1, 3) as i64);
    c.set("read_s", r.range(1, 3) as i64);
    c.set("write_s", r.range(1, 3) as i64);
    c.set("udp_port", *r.pick(&[53, 53, 5353, 1, 65_535]));
    c.set("tcp_port", *r.pick(&[53, 53, 5353, 1, 65_535]));
    c.set("wild", r.below(2) as i64);
    ns::gen_v6(r, &mut c);
    c.set("log", r.below(5) as i64);
    c.set("trace", r.below(4) as i64);
    c.set("lat_us", *r.pick(&[1, 500]));
    let (conf, _) = base(&c);
    let mut all = settings(prog, &conf);
    r.shuffle(&mut all);
    // Half of the configurations are sound ones, with values at the ends of their ranges.
    let good = r.below(2) == 0;
    let n = if good { *r.pick(&[1, 2, 4, 8, 20]) } else { *r.pick(&[0, 1, 1, 1, 1, 2, 4]) };
    for (p, t) in all.into_iter().take(n) {
        if good {
            let sound: Vec<u64> = (0..12).filter(|v| !matches!(t, Ty::Group | Ty::File | Ty::Name) && value(t, *v).1 == Verdict::Sound).collect();
            if !sound.is_empty() {
                c.ops.push(json!({"ev": "conf", "path": p, "how": {"do": "val", "v": *r.pick(&sound)}}));
            }
            continue;
        }
        // Mostly values of the setting's own kind.
        let v = match t {
            _ if r.below(8) == 0 => json!({"do": "drop"}),
            _ if r.below(8) == 0 => json!({"do": "type", "v": r.below(6)}),
            Ty::Group => json!({"do": "type", "v": r.below(6)}),
            _ => json!({"do": "val", "v": r.below(12)}),
        };
        c.ops.push(json!({"ev": "conf", "path": p, "how": v}));
    }
    if good {
        if r.below(4) == 0 {
            c.ops.push(json!({"ev": "conf_file", "how": "pretty", "at": 0}));
        }
    } else if r.below(6) == 0 {
        c.ops.push(json!({"ev": "conf_file", "how": *r.pick(&["missing", "empty", "cut", "cut", "cut", "utf8", "tail", "pretty"]), "at": r.below(100_000)}));
    }
    c.rate("file_short_read", *r.pick(&[0, 0, 100_000, 1_000_000]));
    c.rate("file_eintr", *r.pick(&[0, 0, 50_000, 300_000]));
    if r.below(5) == 0 {
        c.rate(if r.below(3) == 0 { "open_err" } else { "read_err" }, *r.pick(&[20_000, 200_000]));
    }
    c.rate("preempt", *r.pick(&[0, 50_000]));
    c
}

#[derive(Clone, Copy, PartialEq, Debug, PartialOrd, Eq, Ord)]
pub enum Verdict {
    Sound,
    /// Nothing is promised.
    Unclear,
    Unsound,
}

/// A value for a setting, and what it makes of the configuration.
fn value(t: Ty, v: u64) -> (Value, Verdict) {
    use Verdict::*;
    let s = |s: &str| Value::String(s.into());
    match t {
        Ty::Count => match v {
            0..=4 => (json!(0), Unsound),
            5 => (json!(-1), Unsound),
            6 => (json!(1u64 << 32), Sound),
            7 => (json!(u64::MAX), Sound),
            8 => (json!(18446744073709551616.0), Unsound),
            9 => (json!(1.5), Unsound),
            10 => (json!(i64::MAX), Sound),
            _ => (json!(86_400), Sound),
        },
        Ty::Threads => match v {
            0..=5 => (json!(0), Unsound),
            6 => (json!(-1), Unsound),
            7 => (json!(0.5), Unsound),
            8 => (json!(18446744073709551616.0), Unsound),
            9 => (json!(1), Sound),
            _ => (json!(7), Sound),
        },
        Ty::Port => match v {
            0 => (json!(65_536), Unsound),
            1 => (json!(65_536 + 53), Unsound),
            2 => (json!(-53), Unsound),
            3 => (json!(u64::MAX), Unsound),
            4 => (json!(53.5), Unsound),
            5 => (json!(65_535), Sound),
            6 => (json!(1), Sound),
            7 => (json!(1u64 << 32 | 53), Unsound),
            _ => (json!(8053), Sound),
        },
        Ty::Level => match v {
            0 => (s("warning"), Unsound),
            1 => (s("verbose"), Unsound),
            2 => (s(""), Unsound),
            3 => (s("information"), Unsound),
            4 => (s("2"), Unsound),
            5 => (s("info,debug"), Unsound),
            _ => (s(["error", "warn", "info", "debug", "trace", "error"][v as usize - 6]), Sound),
        },
        Ty::Ip => match v {
            0 => (s(""), Unsound),
            1 => (s("10.0.0"), Unsound),
            2 => (s("10.0.0.256"), Unsound),
            3 => (s("10.0.0.53:53"), Unsound),
            4 => (s("localhost"), Unsound),
            5 => (s("[fd00::35]"), Unsound),
            6 => (s("fd00::35::1"), Unsound),
            7 => (s("::1"), Sound),
            8 => (s("::"), Sound),
            9 => (s("127.0.0.1"), Sound),
            10 => (s("fd00::35"), Sound),
            _ => (s("0.0.0.0"), Sound),
        },
        Ty::Bool => match v {
            0 => (s("true"), Unsound),
            1 => (json!(1), Unsound),
            2 => (s(""), Unsound),
            _ => (json!(v % 2 == 0), Sound),
        },
        Ty::Ttl => match v {
            0..=2 => (json!(1u64 << 32), Unsound),
            3..=5 => (json!(-1), Unsound),
            6 => (json!(0.25), Unsound),
            7 => (json!(u64::MAX), Unsound),
            8 => (s("1h"), Unsound),
            // (Records with less than the minimum are refused.)
            9 => (json!(1), Unclear),
            _ => (json!(604_800), Unclear),
        },
        Ty::Name => match v % 5 {
            0 => (Value::String(format!("{}.com.", "a".repeat(64))), Unsound),
            1 => (s("a..com."), Unsound),
            2 => (Value::String("abcdefg.".repeat(33)), Unsound),
            3 => (s("a b.com."), Unsound),
            _ => (Value::String(format!("{}.com.", "b".repeat(200))), Unsound),
        },
        Ty::File => (s("/sim/no/such/file"), Unsound),
        Ty::Group => (json!({}), Unsound),
    }
}

/// A value of a wrong type.
fn mistyped(t: Ty, v: u64) -> Value {
    let mut vals = vec![Value::Null, json!({"a": 1})];
    match t {
        Ty::Count | Ty::Threads | Ty::Port | Ty::Ttl => vals.extend([json!("1"), json!(true), json!([1])]),
        Ty::Level | Ty::Ip | Ty::Name | Ty::File => vals.extend([json!(1), json!(true), json!(["10.0.0.53"])]),
        Ty::Bool => vals.extend([json!(0), json!("false"), json!([true])]),
        Ty::Group => vals.extend([json!(1), json!("x"), json!(true)]),
    }
    vals[v as usize % vals.len()].clone()
}

pub struct Prepared {
    bytes: Option<Vec<u8>>,
    verdict: Verdict,
    why: Vec<String>,
    /// Address and port of each server, if sound.
    at: [Option<Addr>; 2],
    zone: Option<zone::Zone>,
}

fn ip_of(v: &Value) -> Option<u32> {
    match v.as_str()?.parse().ok()? {
        std::net::IpAddr::V4(ip) => Some(ip.into()),
        std::net::IpAddr::V6(ip) => v6_number(ip.octets()),
    }
}

fn prepare(c: &Case) -> Prepared {
    let (mut conf, zone) = base(c);
    let all = settings(&c.scenario, &conf);
    let mut verdict = Verdict::Sound;
    let mut why = vec![];
    for o in c.ops.iter().filter(|o| o["ev"] == "conf") {
        let path = o["path"].as_str().unwrap_or("").to_string();
        let Some(t) = all.iter().find(|s| s.0 == path).map(|s| s.1) else { continue };
        if conf.pointer(&path).is_none() {
            continue;
        }
        let h = &o["how"];
        let vi = h["v"].as_u64().unwrap_or(0);
        let w = match h["do"].as_str().unwrap_or("") {
            "drop" => {
                let (p, k) = path.rsplit_once('/').unwrap();
                if let Some(m) = conf.pointer_mut(p).and_then(|v| v.as_object_mut()) {
                    m.remove(k);
                }
                why.push(format!("no {}", path));
                Verdict::Unsound
            }
            "type" => {
                let v = mistyped(t, vi);
                why.push(format!("{} is {}", path, v));
                *conf.pointer_mut(&path).unwrap() = v;
                Verdict::Unsound
            }
            _ => {
                let (v, w) = value(t, vi);
                if w != Verdict::Sound {
                    why.push(format!("{} is {}", path, v));
                }
                *conf.pointer_mut(&path).unwrap() = v;
                w
            }
        };
        verdict = verdict.max(w);
    }
    let mut bytes = Some(serde_json::to_vec(&conf).unwrap());
    for o in c.ops.iter().filter(|o| o["ev"] == "conf_file") {
        let at = o["at"].as_u64().unwrap_or(0) as usize;
        let mut b = bytes.clone().unwrap_or_default();
        let how = o["how"].as_str().unwrap_or("").to_string();
        match how.as_str() {
            "missing" => bytes = None,
            "empty" => bytes = Some(vec![]),
            "cut" => {
                b.truncate(at % b.len().max(1));
                bytes = Some(b);
            }
            "utf8" => {
                // Within the first string.
                b.insert(2, 0xFF);
                bytes = Some(b);
            }
            "tail" => {
                b.extend(b[..1].to_vec());
                bytes = Some(b);
            }
            _ => {
                bytes = Some(serde_json::to_vec_pretty(&conf).unwrap());
                continue;
            }
        }
        verdict = Verdict::Unsound;
        why.push(format!("the file is {}", how));
    }
    let addr = |s: &str| Some(Addr { ip: ip_of(&conf[s]["address"])?, port: conf[s]["port"].as_u64()? as u16 });
    let at = if verdict == Verdict::Sound { [addr("udp_server"), addr("tcp_server")] } else { [None; 2] };
    Prepared { bytes, verdict, why, at, zone }
}

pub struct ConfWorld {
    p: Prepared,
    bound: [bool; 2],
    begun: Vec<String>,
    faults: u32,
    dead: bool,
    asked: bool,
    answered: [u32; 2],
    tcp_in: std::collections::BTreeMap<usize, Vec<u8>>,
    client: Option<usize>,
    done: bool,
}

impl ConfWorld {
    pub fn new(case: &Case) -> ConfWorld {
        ConfWorld {
            p: prepare(case),
            bound: [false; 2],
            begun: vec![],
            faults: 0,
            dead: false,
            asked: false,
            answered: [0; 2],
            tcp_in: Default::default(),
            client: None,
            done: false,
        }
    }
    fn state(&self, k: &Kernel) -> String {
        let p: Vec<&String> = k.panics.iter().map(|p| &p.2).take(3).collect();
        format!("{}; {} failed reads; begun: {:?}; panics {:?}; file: {}", if self.p.why.is_empty() { "nothing is wrong with the configuration".to_string() } else { self.p.why.join(", ") }, self.faults, self.begun, p, self.p.bytes.as_ref().map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or("(none)".into()))
    }
    fn begins(&mut self, k: &mut Kernel, what: &str) {
        if self.begun.len() < 4 {
            self.begun.push(what.into());
        }
        if self.p.verdict == Verdict::Unsound {
            let s = self.state(k);
            k.violation("C22", "started", format!("the program {} although its configuration is unsound: {}", what, s));
            k.stop = true;
        }
    }
    fn query(&self, id: u16) -> Vec<u8> {
        match &self.p.zone {
            Some(z) => Msg::query(id, &z.top, SOA, false).encode(false),
            None => Msg::query(id, "www.example.", A, true).encode(false),
        }
    }
    fn ask(&mut self, k: &mut Kernel) {
        self.asked = true;
        let to = |a: Addr| {
            let ip = match a.ip {
                0 => HOST_IP,
                V6_ANY if k.case.seed % 2 == 0 => HOST_IP,
                V6_ANY => V6_HOST,
                ip => ip,
            };
            Addr { ip, port: a.port }
        };
        let from = |a: Addr, port| Addr { ip: if is_v6(a.ip) { V6_ANY | 0x1_0109 } else { u32::from_be_bytes([10, 1, 1, 9]) }, port };
        let (u, t) = (to(self.p.at[0].unwrap()), to(self.p.at[1].unwrap()));
        // (Nobody else is on the loopback network.)
        if is_loopback(u.ip) {
            self.answered[0] = 1;
        } else {
            let q = self.query(77);
            k.net_udp(from(u, 4000), u, q);
        }
        if is_loopback(t.ip) {
            self.answered[1] = 1;
        } else {
            self.client = Some(k.tcp_connect(from(t, 4001), t));
        }
        if self.answered == [1, 1] {
            k.timer(k.now + 5 * SEC, WORLD | 3);
        }
        k.timer(k.now + 60 * SEC, WORLD | 2);
    }
    fn reply(&mut self, k: &mut Kernel, tcp: bool, b: &[u8]) {
        let z = self.p.zone.is_some();
        match Msg::decode(b) {
            Ok(m) if m.h.qr && m.h.id == 77 && m.h.rcode == if z { 0 } else { 3 } => self.answered[tcp as usize] += 1,
            m => k.violation("C22", "wrong-answer", format!("with a sound configuration a query was answered with {:?}", m)),
        }
        if self.answered == [1, 1] {
            k.timer(k.now + 5 * SEC, WORLD | 3);
        }
    }
}

impl World for ConfWorld {
    fn start(&mut self, k: &mut Kernel) {
        k.ch.faults_on = true;
        k.nontrivial = self.p.verdict != Verdict::Sound || !k.case.ops.is_empty();
        if let Some(b) = &self.p.bytes {
            k.fs.files.insert("/sim/conf.json".into(), b.clone());
        }
        if let Some(z) = &self.p.zone {
            for (n, b) in &z.files {
                k.fs.files.insert(n.clone(), b.clone());
            }
        }
        k.probe(&format!("configurations ({:?})", self.p.verdict));
        k.timer(20 * SEC, WORLD | 1);
    }
    fn timer(&mut self, k: &mut Kernel, tok: u64) {
        if self.dead {
            return;
        }
        match tok & 0xff {
            1 if self.bound != [true, true] => {
                if self.p.verdict != Verdict::Unclear {
                    let s = self.state(k);
                    k.violation("C22", "hang", format!("20 s after its start the program neither serves nor has it exited: {}", s));
                }
                k.stop = true;
            }
            2 if self.answered != [1, 1] => {
                let s = self.state(k);
                k.violation("C22", "no-service", format!("60 s after being asked, the program has answered {:?} of [1, 1] queries (UDP, TCP): {}", self.answered, s));
                k.stop = true;
            }
            3 => {
                if !k.panics.is_empty() {
                    let s = self.state(k);
                    k.violation("C22", "panic", format!("a thread of the program panicked with a sound configuration: {}", s));
                }
                k.probe("configurations accepted");
                self.done = true;
                k.stop = true;
            }
            _ => {}
        }
    }
    fn spawn_fails(&mut self, k: &mut Kernel, _n: u64) -> bool {
        self.begins(k, "starts a thread");
        false
    }
    fn socket_errno(&mut self, k: &mut Kernel, _dgram: bool) -> Option<i32> {
        self.begins(k, "opens a socket");
        None
    }
    fn bound(&mut self, k: &mut Kernel, tcp: bool, at: Addr) {
        if self.p.verdict != Verdict::Sound {
            return;
        }
        if self.asked {
            return;
        }
        if Some(at) != self.p.at[tcp as usize] {
            k.violation("C22", "other-address", format!("the {} server is bound to {} instead of {:?}", if tcp { "TCP" } else { "UDP" }, at, self.p.at[tcp as usize]));
            return;
        }
        self.bound[tcp as usize] = true;
        if self.bound == [true, true] {
            self.ask(k);
        }
    }
    fn udp_port(&mut self, _at: Addr) -> PortKind {
        PortKind::Open
    }
    fn udp_in(&mut self, k: &mut Kernel, at: Addr, src: Addr, data: &[u8]) {
        if at.port == 4000 {
            self.reply(k, false, data);
            return;
        }
        // An upstream server: the answer needs TCP.
        if let Ok(q) = Msg::decode(data) {
            let mut m = q.reply_to();
            m.h.tc = true;
            k.net_udp(at, src, m.encode(false));
        }
    }
    fn tcp_syn(&mut self, _k: &mut Kernel, _conn: usize, _at: Addr) -> SynReply {
        SynReply::Accept
    }
    fn tcp_established(&mut self, k: &mut Kernel, conn: usize) {
        if Some(conn) == self.client {
            let q = self.query(77);
            let mut b = (q.len() as u16).to_be_bytes().to_vec();
            b.extend(q);
            k.tcp_send(conn, &b);
        }
    }
    fn tcp_data(&mut self, k: &mut Kernel, conn: usize, data: &[u8]) {
        let b = self.tcp_in.entry(conn).or_default();
        b.extend_from_slice(data);
        if b.len() < 2 || b.len() < 2 + ((b[0] as usize) << 8 | b[1] as usize) {
            return;
        }
        let m = b[2..].to_vec();
        if Some(conn) == self.client {
            self.reply(k, true, &m);
            return;
        }
        if let Ok(q) = Msg::decode(&m) {
            let mut m = q.reply_to();
            m.h.aa = true;
            m.h.rcode = 3;
            let m = m.encode(false);
            let mut b = (m.len() as u16).to_be_bytes().to_vec();
            b.extend(m);
            k.tcp_send(conn, &b);
        }
    }
    fn tcp_fin(&mut self, k: &mut Kernel, conn: usize) {
        k.tcp_fin(conn);
    }
    fn fault(&mut self, k: &mut Kernel, _kind: Kd, _tid: Tid, peer: FaultPeer) {
        k.nontrivial = true;
        if peer == FaultPeer::File {
            self.faults += 1;
        }
    }
    fn exited(&mut self, k: &mut Kernel, code: i32) {
        self.dead = true;
        let s = self.state(k);
        let crashed = !k.panics.is_empty() || k.aborted;
        if self.asked {
            k.violation("C22", "ended", format!("the program ended with status {} while serving: {}", code, s));
        } else if code == 0 {
            k.violation("C22", "exit-status", format!("the program did not serve, but exited with status 0: {}", s));
        } else if crashed && self.p.verdict != Verdict::Unclear {
            k.violation("C22", "crash", format!("the program crashed instead of reporting an error: {}", s));
        } else if self.p.verdict == Verdict::Sound && self.faults == 0 {
            k.violation("C22", "refused", format!("the program refused (status {}) a sound configuration: {}", code, s));
        } else {
            k.probe("configurations refused");
        }
        k.stop = true;
    }
    fn finish(&mut self, k: &mut Kernel) {
        if !self.dead && !self.done && k.violations.is_empty() && self.p.verdict == Verdict::Sound {
            let s = self.state(k);
            k.violation("C22", "stuck", format!("the program stopped doing anything: {}", s));
        }
    }
}
