//! Start-up failures and the stop they must lead to, for both servers.
use super::clients::*;
use super::ns::{sched_rates, server_conf};
use crate::case::*;
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use serde_json::{json, Value};

pub const LIFE_END: u64 = 70;
/// The address of another machine.
pub const FOREIGN: u32 = 0xCB00_7135;

/// What goes wrong.
const NOTHING: i64 = 0;
const BIND: i64 = 1;
const SOCKOPT: i64 = 2;
const LISTEN: i64 = 3;
const SPAWN: i64 = 4;
const FDS: i64 = 5;
const NOT_LOCAL: i64 = 6;

/// Adds the start-up scenario to a case of a server. `first` is the index of the thread
/// creation that starts the UDP server.
pub fn generate(r: &mut Rng, c: &mut Case, first: i64, ask: &mut dyn FnMut(&mut Rng) -> (String, u16)) {
    c.set("life", 1);
    let mode = *r.pick(&[BIND, BIND, BIND, SOCKOPT, LISTEN, SPAWN, SPAWN, FDS, NOT_LOCAL, NOTHING]);
    c.set("mode", mode);
    // 1: UDP, 2: TCP, 3: both.
    let fails = match mode {
        SOCKOPT => 1,
        LISTEN => 2,
        BIND | NOT_LOCAL => *r.pick(&[1, 2, 1, 2, 3]),
        _ => 0,
    };
    c.set("fails", fails);
    c.set("errno", if mode == NOT_LOCAL { libc::EADDRNOTAVAIL } else { *r.pick(&[libc::EADDRINUSE, libc::EACCES, libc::EADDRNOTAVAIL, libc::ENOBUFS, libc::ENOMEM]) } as i64);
    if mode == NOT_LOCAL {
        c.set("foreign", fails);
        c.set("foreign_answers", r.below(3) as i64);
    }
    c.set("udp_threads", *r.pick(&[1, 1, 2, 3]));
    c.set("tcp_threads", *r.pick(&[1, 1, 2, 3]));
    c.set("read_s", *r.pick(&[1, 2, 3, 3, 30]));
    c.set("lat_us", *r.pick(&[1, 100, 500]));
    c.set("sndcap", 87_380);
    let all = first + 2 + c.p("udp_threads", 1) + c.p("tcp_threads", 1);
    if mode == SPAWN {
        c.set("spawn_fail", if r.below(3) == 0 { r.range(0, first as u64 + 1) as i64 } else { r.below(all as u64) as i64 });
    }
    if mode == FDS {
        c.set("max_fds", r.range(1, 9) as i64);
    }
    // The thread that fails (or any other) starts late, or the main thread is late to create it.
    let late = *r.pick(&[0u64, 0, 30, 500, 40_000, 300_000, 1_500_000]);
    let failing = match (fails, mode) {
        (_, SPAWN) => c.p("spawn_fail", 0),
        (1, _) => first,
        (2, _) => first + 1,
        _ => first + r.below(2) as i64,
    };
    let (mut stalls, mut pauses) = (vec![], vec![]);
    if late > 0 {
        if mode == SPAWN || r.below(3) == 0 {
            pauses.push((failing, late));
        } else {
            stalls.push((failing, late));
        }
    }
    if r.below(3) == 0 {
        stalls.push((r.below(all as u64) as i64, *r.pick(&[10, 2_000, 200_000])));
    }
    let v = |x: &[(i64, u64)]| -> Vec<Value> { x.iter().map(|(n, d)| json!([n, d])).collect() };
    c.ops.push(json!({"ev": "timing", "late": v(&stalls), "pause": v(&pauses)}));
    let span = (late + late / 5).max(1000);
    let tcp = match fails {
        1 => 100,
        2 => 0,
        _ => 50,
    };
    let x = Mix { n: r.range(0, 14), span_us: span, tcp, hostile: 0, stall: *r.pick(&[0, 0, 15, 40]), clients: r.range(1, 8), read_s: c.p("read_s", 1) as u64 };
    let mut ops = generate_ops(r, &x, ask);
    // Requests that are still in progress when the failure shows.
    for o in ops.iter_mut() {
        if o["tcp"].as_bool().unwrap_or(false) {
            if r.below(3) == 0 && o["stop"].is_null() && o["len"].is_null() {
                let n = o["hex"].as_str().unwrap_or("").len() as u64 / 2 + 2;
                let gap = (c.p("read_s", 1) as u64 * 1_000_000).min(3_000_000) * *r.pick(&[1, 5, 9]) / 10;
                o["segs"] = json!([[r.range(1, n - 1), 0], [n, gap]]);
            }
        } else if r.below(3) == 0 {
            o["slow_ms"] = json!(*r.pick(&[1, 50, 800, 2500]));
        }
    }
    c.ops.extend(ops);
    sched_rates(r, c);
    c.rate("stall", 0);
    c.rate("tcp_split", *r.pick(&[0, 300_000]));
    if r.below(2) == 0 {
        c.rate("short_read", *r.pick(&[0, 100_000, 600_000]));
        c.rate("short_write", *r.pick(&[0, 100_000, 600_000]));
        c.rate("eintr", *r.pick(&[0, 30_000, 200_000]));
    }
    if fails > 0 && r.below(5) == 0 {
        // The sockets that wake up the other server cannot be had.
        c.set("wake_fails", r.range(1, 3) as i64);
    }
}

/// The configured server sections; one may name another machine's address.
pub fn conf(c: &Case) -> (Value, Value) {
    let (mut u, mut t) = server_conf(c);
    let f = c.p("foreign", 0);
    let ip = Addr { ip: FOREIGN, port: 53 }.to_string();
    let ip = ip.split(':').next().unwrap_or("").to_string();
    if f & 1 != 0 {
        u["address"] = json!(ip);
    }
    if f & 2 != 0 {
        t["address"] = json!(ip);
    }
    (u, t)
}

pub struct Life {
    mode: i64,
    fails: i64,
    errno: i32,
    spawn_fail: i64,
    late: Vec<(u64, u64)>,
    pause: Vec<(u64, u64)>,
    wake_fails: i64,
    foreign_answers: i64,
    pub failed: Option<(u64, String)>,
    /// Cost (ns) that one request may have.
    pub per_op: u64,
    first_bound: Option<u64>,
}

impl Life {
    pub fn new(case: &Case) -> Option<Life> {
        if case.p("life", 0) == 0 {
            return None;
        }
        let t = case.ops.iter().find(|o| o["ev"] == "timing").cloned().unwrap_or(json!({}));
        let v = |n: &str| -> Vec<(u64, u64)> { t[n].as_array().into_iter().flatten().map(|x| (x[0].as_u64().unwrap_or(0), x[1].as_u64().unwrap_or(0) * US)).collect() };
        Some(Life {
            mode: case.p("mode", 0),
            fails: case.p("fails", 0),
            errno: case.p("errno", 98) as i32,
            spawn_fail: case.p("spawn_fail", -1),
            late: v("late"),
            pause: v("pause"),
            wake_fails: case.p("wake_fails", 0),
            foreign_answers: case.p("foreign_answers", 0),
            failed: None,
            per_op: 50 * MS,
            first_bound: None,
        })
    }
    /// Does everything start as it should (so that the ordinary scenario follows)?
    pub fn nothing_fails(&self) -> bool {
        self.mode == NOTHING
    }
    pub fn bind_errno(&mut self, tcp: bool, at: Addr) -> Option<i32> {
        if at.port == 0 {
            return (self.wake_fails & 1 != 0 && !tcp).then_some(libc::EADDRINUSE);
        }
        let bit = if tcp { 2 } else { 1 };
        (matches!(self.mode, BIND | NOT_LOCAL) && self.fails & bit != 0).then_some(self.errno)
    }
    pub fn listen_errno(&mut self) -> Option<i32> {
        (self.mode == LISTEN).then_some(libc::EADDRINUSE)
    }
    pub fn sockopt_errno(&mut self, dgram: bool, local: Addr) -> Option<i32> {
        (self.mode == SOCKOPT && dgram && local.port != 0 && self.failed.is_none()).then_some(libc::EDOM)
    }
    pub fn socket_errno(&mut self, dgram: bool) -> Option<i32> {
        // Only those made once the failure is there.
        (self.failed.is_some() && !dgram && self.wake_fails & 2 != 0).then_some(libc::EMFILE)
    }
    pub fn spawn_fails(&mut self, k: &mut Kernel, n: u64) -> bool {
        if n as i64 == self.spawn_fail {
            self.note(k, format!("creating thread {} failed", n));
            return true;
        }
        false
    }
    pub fn spawn_delays(&mut self, n: u64) -> (u64, u64) {
        let f = |v: &[(u64, u64)]| v.iter().find(|x| x.0 == n).map(|x| x.1).unwrap_or(0);
        (f(&self.pause), f(&self.late))
    }
    pub fn note(&mut self, k: &mut Kernel, what: String) {
        if self.failed.is_none() {
            let now = k.now;
            k.logf(|| format!("start-up failure: {} at {:.3} ms", what, now as f64 / 1e6));
            k.probe(&format!("start-up failures (mode {})", self.mode));
            self.failed = Some((k.now, what));
            k.nontrivial = true;
            k.timer(k.now + self.grace(), 9 << 56 | LIFE_END);
        }
    }
    /// How long after the failure the process may take to end (the main thread may be held up,
    /// at whichever point it creates a thread).
    fn grace(&self) -> u64 {
        5500 * MS + self.pause.iter().map(|p| p.1).sum::<u64>()
    }
    pub fn syn(&self, at: Addr) -> SynReply {
        match (at.ip == FOREIGN, self.foreign_answers) {
            (true, 0) => SynReply::Ignore,
            (true, 1) => SynReply::Accept,
            _ => SynReply::Refuse,
        }
    }
    /// One of the sockets is up: the clients begin. Returns whether they have to be started.
    pub fn bound(&mut self, k: &mut Kernel) -> bool {
        let first = self.first_bound.is_none();
        if first {
            self.first_bound = Some(k.now);
        }
        first
    }
    pub fn start_ops(&mut self, k: &mut Kernel, c: &mut Clients, ops: &[Value]) {
        c.base = k.now + 1;
        c.strict_latency = false;
        for o in ops {
            let i = c.add(o);
            c.schedule(k, i);
            let s = o["slow_ms"].as_u64().unwrap_or(0) * MS;
            if s > 0 {
                k.slow_send.insert(c.ops[i].addr, s);
            }
        }
        let last = c.settle(k);
        k.timer(last.max(k.now + 8 * SEC), 9 << 56 | LIFE_END);
    }

    /// The process should be gone by now, or should still be there.
    pub fn end(&mut self, k: &mut Kernel, up: [bool; 2], dead: bool, panics: String) {
        if dead {
            return;
        }
        match &self.failed {
            Some((t, what)) => {
                if k.now >= t + self.grace() {
                    k.violation("C06", "half-alive", format!("{} at {:.3} ms; at {:.3} ms the process still runs (UDP bound {}, TCP bound {}); panics {}", what, *t as f64 / 1e6, k.now as f64 / 1e6, up[0], up[1], panics));
                    k.stop = true;
                }
            }
            None => {
                if up != [true, true] {
                    k.violation("C06", "half-alive", format!("at {:.3} ms the process runs without both transports (UDP bound {}, TCP bound {}); panics {}", k.now as f64 / 1e6, up[0], up[1], panics));
                }
                k.stop = true;
            }
        }
    }

    /// By when each request is over, if the server goes on undisturbed.
    fn planned(&self, k: &Kernel, c: &Clients) -> Vec<Option<u64>> {
        let mut res = vec![None; c.ops.len()];
        for tcp in [false, true] {
            let mut v: Vec<&Op> = c.ops.iter().filter(|o| o.tcp == tcp && if tcp { o.accepted.is_some() } else { o.taken > 0 }).collect();
            v.sort_by_key(|o| (if tcp { o.accepted.unwrap() } else { o.last_taken }, o.i));
            let mut t = 0u64;
            // As if one thread did everything.
            for o in v {
                let from = if tcp { o.accepted.unwrap() } else { o.last_taken };
                t = t.max(from);
                let mut gaps = false;
                if tcp {
                    let conn0 = c.base + o.t + 2 * k.net.lat + 1;
                    let need = o.frame_end().unwrap_or(usize::MAX);
                    let mut prev = from;
                    let mut done = None;
                    for (end, at) in &o.segs {
                        let at = conn0 + at + k.net.lat;
                        if at.saturating_sub(prev) + 50 * MS > c.read_to {
                            gaps = true;
                        }
                        prev = prev.max(at);
                        if *end >= need {
                            done = Some(at);
                            break;
                        }
                    }
                    if o.end.ends_with("rst") || (o.end == "fin" && o.end_at > 0) || o.refused || o.rst_at.is_some() {
                        gaps = true;
                    }
                    t = match done {
                        Some(d) if !gaps => t.max(d),
                        _ => t.max(prev) + c.read_to,
                    };
                    if done.is_none() {
                        gaps = true;
                    }
                } else {
                    t += k.slow_send.get(&o.addr).copied().unwrap_or(0);
                }
                t += self.per_op;
                let skip = gaps || o.excused > 0 || matches!(o.cls, Cls::Nothing | Cls::Optional) || o.noread;
                if !skip {
                    res[o.i] = Some(t);
                }
            }
        }
        res
    }

    pub fn exited(&mut self, k: &mut Kernel, c: &Clients, up: [bool; 2], code: i32, panics: String) {
        if self.mode == FDS && self.failed.is_none() && up != [true, true] {
            k.probe("exits for want of descriptors");
            k.nontrivial = true;
            return;
        }
        let Some((t, what)) = self.failed.clone() else {
            k.violation("C06", "process-died", format!("the process exited with status {} although nothing had failed; panics {}", code, panics));
            return;
        };
        if k.now > t + self.grace() {
            k.violation("C06", "exit-late", format!("{} at {:.3} ms; the process ended at {:.3} ms", what, t as f64 / 1e6, k.now as f64 / 1e6));
        }
        k.probe(if k.now > t + 3900 * MS { "exits after the deadline for requests" } else { "exits with all requests done" });
        for (i, by) in self.planned(k, c).into_iter().enumerate() {
            let o = &c.ops[i];
            let from = if o.tcp { o.accepted.unwrap_or(u64::MAX) } else { o.last_taken };
            let Some(by) = by else { continue };
            let done = if o.tcp { o.out_done.is_some() } else { o.replies.len() as u32 >= o.taken };
            if from + MS < t && by <= t + 3500 * MS {
                if !done {
                    k.violation("C06", "not-drained", format!("{} at {:.3} ms; {} had been accepted at {:.3} ms and could have been answered by {:.3} ms, but the process ended at {:.3} ms (status {}) without an answer; panics {}", what, t as f64 / 1e6, o.brief(), from as f64 / 1e6, by as f64 / 1e6, k.now as f64 / 1e6, code, panics));
                } else if o.replies.last().is_some_and(|r| r.at > t) {
                    k.probe("requests answered after the failure");
                }
            }
        }
    }
}
