//! Clients of the servers under test (well-behaved and hostile), and what every reply
//! to them must satisfy whatever the server is.
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use crate::wire::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

/// What a request deserves.
#[derive(Clone, Debug, PartialEq)]
pub enum Cls {
    /// Never answered.
    Nothing,
    /// Answered or not; if answered then with any code.
    Optional,
    /// Answered with one of these codes.
    Err(Vec<u8>),
    /// Answered, with any code.
    Lenient,
    /// Answered according to what is served.
    Query { q: Q, rd: bool, trailing: bool },
}

struct Rd<'a> {
    b: &'a [u8],
    i: usize,
    bad: bool,
    odd: bool,
    notimp: bool,
    unknown: bool,
}
impl Rd<'_> {
    fn u8(&mut self) -> usize {
        match self.b.get(self.i) {
            Some(v) => {
                self.i += 1;
                *v as usize
            }
            None => {
                self.bad = true;
                0
            }
        }
    }
    fn u16(&mut self) -> usize {
        self.u8() << 8 | self.u8()
    }
    fn skip(&mut self, n: usize) {
        if self.i + n > self.b.len() {
            self.bad = true;
            self.i = self.b.len();
        } else {
            self.i += n;
        }
    }
    fn name(&mut self) -> String {
        let mut s = String::new();
        let (mut back, mut jumps, mut lo) = (None, 0, self.i);
        loop {
            if self.bad {
                return s;
            }
            let at = self.i;
            let l = self.u8();
            match l >> 6 {
                0 if l == 0 => break,
                0 => {
                    let (a, e) = (self.i, (self.i + l).min(self.b.len()));
                    let d = self.b[a..e].to_vec();
                    self.skip(l);
                    if !d.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-') || !d.first().map(|c| c.is_ascii_alphabetic()).unwrap_or(true) || !d.last().map(|c| c.is_ascii_alphanumeric()).unwrap_or(true) {
                        self.odd = true;
                    }
                    s.push_str(&String::from_utf8_lossy(&d));
                    s.push('.');
                    if s.len() > 2000 {
                        self.bad = true;
                    }
                }
                3 => {
                    let o = (l & 63) << 8 | self.u8();
                    if back.is_none() {
                        back = Some(self.i);
                    }
                    if o >= lo.min(at) {
                        // Forward or self reference: nothing valid comes of it, usually.
                        self.odd = true;
                    }
                    lo = lo.min(o);
                    jumps += 1;
                    if jumps > 10 {
                        self.odd = true;
                    }
                    if jumps > 100 || o >= self.b.len() {
                        self.bad = true;
                        return s;
                    }
                    self.i = o;
                }
                _ => self.bad = true,
            }
        }
        if let Some(i) = back {
            self.i = i;
        }
        if s.len() >= 250 {
            self.odd = true;
        }
        if s.len() > 255 {
            self.bad = true;
        }
        if s.is_empty() {
            s.push('.');
        }
        s
    }
    fn class(&mut self) {
        match self.u16() {
            1 => {}
            2 | 3 | 4 | 255 => self.notimp = true,
            _ => self.unknown = true,
        }
    }
    fn rr(&mut self) {
        self.name();
        let ty = self.u16() as u16;
        if !self.bad && matches!(ty, 3 | 4 | 7..=10 | 14 | 252..=255) {
            self.odd = true;
        }
        let c = self.u16();
        if !self.bad && c != 1 && KNOWN.contains(&ty) {
            self.odd = true;
        }
        self.skip(4);
        let n = self.u16();
        if self.bad {
            return;
        }
        if self.i + n > self.b.len() {
            self.bad = true;
            return;
        }
        let end = self.i + n;
        if !KNOWN.contains(&ty) {
            // Unknown types are skipped; known unsupported ones may be objected to (above).
            self.i = end;
            return;
        }
        match ty {
            A => self.skip(4),
            NS | CNAME | PTR => {
                self.name();
            }
            SOA => {
                self.name();
                self.name();
                self.skip(20);
            }
            MX => {
                self.skip(2);
                self.name();
            }
            HINFO | TXT => {
                let mut k = 0;
                while !self.bad && (if ty == TXT { self.i < end } else { k < 2 }) {
                    let l = self.u8();
                    let (a, e) = (self.i, (self.i + l).min(self.b.len()));
                    if std::str::from_utf8(&self.b[a..e]).is_err() {
                        self.odd = true;
                    }
                    self.skip(l);
                    k += 1;
                }
                if k == 0 {
                    self.odd = true;
                }
            }
            _ => {
                if n < 5 {
                    self.bad = true;
                } else {
                    self.i = end;
                }
            }
        }
        if self.i != end {
            self.bad = true;
        }
    }
}

pub fn classify(b: &[u8], tcp: bool) -> Cls {
    if b.len() < 12 || b[2] & 0x80 != 0 {
        return Cls::Nothing;
    }
    let op = b[2] >> 3 & 15;
    if op > 2 || b[3] & 15 > 5 {
        return Cls::Optional;
    }
    if !tcp && b.len() > 512 {
        return Cls::Lenient;
    }
    let mut r = Rd { b, i: 4, bad: false, odd: false, notimp: false, unknown: false };
    let (nq, na, nn, nr) = (r.u16(), r.u16(), r.u16(), r.u16());
    let mut q = None;
    for _ in 0..nq {
        let name = r.name();
        let ty = r.u16() as u16;
        if !KNOWN.contains(&ty) && !r.bad {
            if matches!(ty, 3 | 4 | 7..=10 | 14 | 252..=255) {
                r.notimp = true;
            } else {
                r.unknown = true;
            }
        }
        let at = r.i;
        r.class();
        if r.bad {
            break;
        }
        q = Some(Q { name, ty, class: (b[at] as u16) << 8 | b[at + 1] as u16 });
    }
    for _ in 0..na + nn + nr {
        if r.bad {
            break;
        }
        r.rr();
    }
    let unsup = r.notimp || r.unknown;
    if r.odd {
        return Cls::Lenient;
    }
    if op != 0 {
        return Cls::Err(if r.bad || nq != 1 || na + nn > 0 || unsup { vec![4, 1] } else { vec![4] });
    }
    if r.bad || nq != 1 || na + nn > 0 {
        return Cls::Err(if unsup { vec![1, 4] } else { vec![1] });
    }
    if unsup {
        return Cls::Err(if r.unknown { vec![4, 1] } else { vec![4] });
    }
    Cls::Query { q: q.unwrap(), rd: b[2] & 1 != 0, trailing: r.i != b.len() }
}

#[derive(Clone, Debug)]
pub struct Reply {
    pub at: u64,
    pub raw: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub i: usize,
    pub t: u64,
    pub tcp: bool,
    pub addr: Addr,
    /// The message itself (what a complete frame holds).
    pub msg: Vec<u8>,
    pub id: Option<u16>,
    pub cls: Cls,
    /// TCP: the bytes of the stream and the segments (offset end, time after t) they are sent in.
    pub stream: Vec<u8>,
    pub segs: Vec<(usize, u64)>,
    pub end: String,
    pub end_at: u64,
    /// The time between the end and the reset that follows it.
    pub gap: u64,
    pub noread: bool,
    pub what: String,
    // What happened.
    pub queued: u32,
    pub taken: u32,
    pub first_queued: u64,
    pub last_taken: u64,
    pub excused: u32,
    pub replies: Vec<Reply>,
    pub conn: Option<usize>,
    pub accepted: Option<u64>,
    /// Its number in the order of accepting.
    pub accept_no: usize,
    /// Arrivals at the server: time and total number of bytes so far.
    pub arr: Vec<(u64, usize)>,
    pub last_event: u64,
    pub rst_at: Option<u64>,
    pub closed: Option<u64>,
    pub out: Vec<u8>,
    pub out_done: Option<u64>,
    pub out_start: Option<u64>,
    pub out_last: u64,
    pub got_bytes: usize,
    pub refused: bool,
}

impl Op {
    pub fn brief(&self) -> String {
        let q = match &self.cls {
            Cls::Query { q, .. } => format!("{} {}", q.name, q.ty),
            c => format!("{:?}, {}", c, self.what),
        };
        format!("{} request #{} from {} at {:.3} ms ({})", if self.tcp { "TCP" } else { "UDP" }, self.i, self.addr, self.t as f64 / 1e6, q)
    }
    pub fn query(&self) -> Option<&Q> {
        match &self.cls {
            Cls::Query { q, .. } => Some(q),
            _ => None,
        }
    }
    /// Number of stream bytes that make up the length prefix and the message it announces,
    /// if the stream ever contains that many.
    pub fn frame_end(&self) -> Option<usize> {
        let s = &self.stream;
        if s.len() < 2 {
            return None;
        }
        let n = 2 + ((s[0] as usize) << 8 | s[1] as usize);
        (n <= s.len()).then_some(n)
    }
}

/// Are these the networks of the clients?
pub fn is_client_ip(ip: u32) -> bool {
    ip >> 24 == 10 || is_v6(ip)
}

pub fn client_addr(cl: u64) -> Addr {
    // Any port may be a source port: that of DNS (forwarders used to), privileged ones, the ends.
    let port = match cl % 14 {
        3 => 53,
        6 => 1 + (cl * 37 % 1023) as u16,
        9 => [1, 1023, 1024, 65_535, 32_768][(cl / 14 % 5) as usize],
        _ => 5000 + (cl % 997) as u16,
    };
    Addr::new([10, 1 + (cl / 250) as u8, 1 + (cl % 7) as u8, 1 + (cl % 250) as u8], port)
}

pub struct Clients {
    pub ops: Vec<Op>,
    by_id: BTreeMap<(Addr, u16), usize>,
    addrs: BTreeSet<Addr>,
    pub by_conn: BTreeMap<usize, usize>,
    last_taken: BTreeMap<Tid, usize>,
    pub udp: Addr,
    pub tcp: Addr,
    pub tcp_threads: usize,
    pub read_to: u64,
    pub write_to: u64,
    /// The base time that op times are relative to.
    pub base: u64,
    pub strict_latency: bool,
    tcp_port: u16,
    /// Do the servers accept IPv4, too, if they are bound to IPv6?
    both: bool,
    v6_cl: u64,
}

/// What a callback learnt.
pub enum Got {
    No,
    /// The op was answered (index of the op, the decoded message).
    Reply(usize, Box<Msg>),
}

pub const OP: u64 = 1 << 56;
pub const SEGM: u64 = 2 << 56;
pub const ENDT: u64 = 3 << 56;

impl Clients {
    pub fn new(udp: Addr, tcp: Addr, tcp_threads: usize, read_s: u64, write_s: u64) -> Clients {
        Clients {
            ops: vec![],
            by_id: BTreeMap::new(),
            addrs: BTreeSet::new(),
            by_conn: BTreeMap::new(),
            last_taken: BTreeMap::new(),
            udp,
            tcp,
            tcp_threads,
            read_to: read_s * SEC,
            write_to: write_s * SEC,
            base: 0,
            strict_latency: true,
            tcp_port: 20_000,
            both: false,
            v6_cl: 100,
        }
    }

    /// Which servers are reached over IPv6, and by how many of the clients.
    pub fn use_v6(&mut self, c: &crate::case::Case) {
        self.both = c.p("wild", 0) != 0;
        self.v6_cl = c.p("v6_cl", 100) as u64;
    }
    fn server(&self, tcp: bool) -> Addr {
        if tcp {
            self.tcp
        } else {
            self.udp
        }
    }
    /// The address at which this client reaches the server.
    pub fn server_of(&self, client: Addr, tcp: bool) -> Addr {
        Addr { ip: if is_v6(client.ip) { V6_HOST } else { HOST_IP }, ..self.server(tcp) }
    }

    /// Registers a request described by a case op; `t` is relative to `base`.
    pub fn add(&mut self, o: &Value) -> usize {
        let g = |n: &str, d: u64| o[n].as_u64().unwrap_or(d);
        let msg = unhex(o["hex"].as_str().unwrap_or(""));
        let tcp = o["tcp"].as_bool().unwrap_or(false);
        let i = self.ops.len();
        let mut addr = client_addr(g("cl", 0));
        if is_v6(self.server(tcp).ip) && (!self.both || (g("cl", 0) * 37 + i as u64 * 11) % 100 < self.v6_cl) {
            addr.ip = V6_ANY | (addr.ip & 0xff_ffff);
        }
        if let Some(p) = o["port"].as_u64() {
            addr.port = p as u16;
        }
        let mut stream = vec![];
        let mut segs = vec![];
        if tcp {
            self.tcp_port = self.tcp_port.wrapping_add(1).max(1024);
            addr.port = if i % 9 == 4 { 1 + (i % 1023) as u16 } else { self.tcp_port };
            let len = g("len", msg.len() as u64) as u16;
            stream.extend_from_slice(&len.to_be_bytes());
            stream.extend_from_slice(&msg);
            stream.extend_from_slice(&unhex(o["extra"].as_str().unwrap_or("")));
            if let Some(s) = o["stop"].as_u64() {
                stream.truncate(s as usize);
            }
            let mut off = 0;
            let mut t = 0;
            for s in o["segs"].as_array().unwrap_or(&vec![]) {
                off = (off + s[0].as_u64().unwrap_or(1) as usize).min(stream.len());
                t += s[1].as_u64().unwrap_or(0) * US;
                segs.push((off, t));
            }
            if off < stream.len() {
                segs.push((stream.len(), t));
            }
        }
        // What counts is the message that the length prefix announces.
        let mut op = Op {
            i,
            t: g("t", 0) * US,
            tcp,
            addr,
            id: (msg.len() >= 2).then(|| (msg[0] as u16) << 8 | msg[1] as u16),
            // Nothing can be sent to port 0.
            cls: if addr.port == 0 { Cls::Nothing } else { classify(&msg, tcp) },
            msg,
            stream,
            segs,
            end: o["end"].as_str().unwrap_or("keep").to_string(),
            end_at: g("end_us", 0) * US,
            gap: g("gap_us", 0) * US,
            noread: o["noread"].as_bool().unwrap_or(false),
            what: o["what"].as_str().unwrap_or("").to_string(),
            queued: 0,
            taken: 0,
            first_queued: 0,
            last_taken: 0,
            excused: 0,
            replies: vec![],
            conn: None,
            accepted: None,
            accept_no: 0,
            arr: vec![],
            last_event: 0,
            rst_at: None,
            closed: None,
            out: vec![],
            out_done: None,
            out_start: None,
            out_last: 0,
            got_bytes: 0,
            refused: false,
        };
        if tcp {
            op.cls = match op.frame_end() {
                Some(n) => classify(&op.stream[2..n], true),
                None => Cls::Nothing,
            };
            op.id = if op.stream.len() >= 4 { Some((op.stream[2] as u16) << 8 | op.stream[3] as u16) } else { None };
        } else {
            if let Some(id) = op.id {
                self.by_id.insert((addr, id), i);
            }
            self.addrs.insert(addr);
        }
        self.ops.push(op);
        i
    }

    /// Schedules an op (its time counts from `base`).
    pub fn schedule(&mut self, k: &mut Kernel, i: usize) {
        let at = self.base + self.ops[i].t;
        k.timer(at, OP | i as u64);
    }

    pub fn timer(&mut self, k: &mut Kernel, tok: u64) -> bool {
        let i = (tok & 0xffff_ffff) as usize;
        match tok >> 56 {
            1 => {
                let op = &self.ops[i];
                if is_v6(op.addr.ip) {
                    k.probe(if op.tcp { "requests over TCP and IPv6" } else { "requests over UDP and IPv6" });
                }
                let op = &self.ops[i];
                if !op.tcp {
                    let (a, m) = (op.addr, op.msg.clone());
                    let dst = self.server_of(a, false);
                    k.net_udp(a, dst, m);
                    return true;
                }
                let (a, dst, noread) = (op.addr, self.server_of(op.addr, true), op.noread);
                let c = k.tcp_connect(a, dst);
                self.by_conn.insert(c, i);
                self.ops[i].conn = Some(c);
                if noread {
                    k.tcp_reading(c, false);
                }
                true
            }
            2 => {
                let s = (tok >> 32 & 0xff_ffff) as usize;
                let op = &self.ops[i];
                let Some(c) = op.conn else { return true };
                if op.refused || op.rst_at.is_some() {
                    return true;
                }
                let a = if s == 0 { 0 } else { op.segs[s - 1].0 };
                let d = op.stream[a..op.segs[s].0].to_vec();
                if !d.is_empty() && !k.net.conns[c].ends[0].sent_fin {
                    k.tcp_send(c, &d);
                }
                true
            }
            3 => {
                let op = &mut self.ops[i];
                let Some(c) = op.conn else { return true };
                if op.refused {
                    return true;
                }
                if op.end == "rst" || tok >> 32 & 1 == 1 {
                    op.rst_at = Some(k.now);
                    k.tcp_rst(c);
                } else {
                    k.tcp_fin(c);
                }
                true
            }
            _ => false,
        }
    }

    pub fn is_client(&self, a: Addr) -> bool {
        self.addrs.contains(&a)
    }

    fn op_of(&self, src: Addr, data: &[u8]) -> Option<usize> {
        if data.len() < 2 {
            return self.ops.iter().position(|o| !o.tcp && o.addr == src && o.msg == data);
        }
        self.by_id.get(&(src, (data[0] as u16) << 8 | data[1] as u16)).copied()
    }

    pub fn udp_queued(&mut self, k: &Kernel, src: Addr, data: &[u8]) {
        if let Some(i) = self.op_of(src, data) {
            let o = &mut self.ops[i];
            o.queued += 1;
            if o.first_queued == 0 {
                o.first_queued = k.now;
            }
        }
    }

    pub fn udp_taken(&mut self, k: &mut Kernel, src: Addr, data: &[u8]) {
        let Some(i) = self.op_of(src, data) else { return };
        self.last_taken.insert(k.cur, i);
        self.ops[i].taken += 1;
        self.ops[i].last_taken = k.now;
    }

    pub fn fault(&mut self, kind: Kd, tid: Tid, peer: FaultPeer) {
        match (kind, peer) {
            (Kd::DupErr | Kd::SendErr | Kd::OptErr | Kd::AcceptErr | Kd::RecvErr, FaultPeer::Conn(c)) => {
                if let Some(i) = self.by_conn.get(&c) {
                    self.ops[*i].excused += 1;
                }
            }
            (Kd::SendErr, FaultPeer::Udp { peer, .. }) => {
                for o in self.ops.iter_mut().filter(|o| !o.tcp && o.addr == peer) {
                    o.excused += 1;
                }
            }
            (Kd::DupErr, _) => {
                if let Some(i) = self.last_taken.get(&tid) {
                    self.ops[*i].excused += 1;
                }
            }
            _ => {}
        }
    }

    /// A datagram sent from the serving socket.
    pub fn udp_sent(&mut self, k: &mut Kernel, dst: Addr, data: &[u8]) -> Got {
        if data.len() > 512 {
            k.violation("C03", "udp-too-long", format!("a UDP response of {} bytes was sent", data.len()));
        }
        if !self.addrs.contains(&dst) {
            k.violation("C01", "sent-to-stranger", format!("{} bytes were sent to {}, which never sent a query", data.len(), dst));
            return Got::No;
        }
        if data.len() < 12 {
            k.violation_all(&["C01", "C03"], "short-reply", format!("a datagram of {} bytes was sent to {}", data.len(), dst));
            return Got::No;
        }
        let id = (data[0] as u16) << 8 | data[1] as u16;
        let Some(&i) = self.by_id.get(&(dst, id)) else {
            k.violation("C01", "wrong-id", format!("a response with ID {} was sent to {}, which never used that ID", id, dst));
            return Got::No;
        };
        let now = k.now;
        self.ops[i].replies.push(Reply { at: now, raw: data.to_vec() });
        let o = &self.ops[i];
        if o.cls == Cls::Nothing {
            k.violation_all(&["C01", "C04"], "answered-non-query", format!("{} was answered: {}", o.brief(), hex(data)));
            return Got::No;
        }
        if o.replies.len() as u32 > o.taken {
            k.violation("C01", "answered-twice", format!("{} was received {} times and answered {} times", o.brief(), o.taken, o.replies.len()));
        }
        let d = now - o.last_taken;
        if self.strict_latency && !k.slow_send.contains_key(&dst) {
            let since = o.first_queued;
            let lost = k.stalled_in(since, now);
            // A slow sender occupies its worker; then nothing can be said.
            if d > 100 * MS + lost && o.taken == 1 && k.slow_send.is_empty() {
                k.violation("C05", "udp-delayed", format!("{} was answered {} ms after it arrived", o.brief(), (now - since) / MS));
            }
        }
        let m = self.check(k, i, data);
        match m {
            Some(m) => Got::Reply(i, Box::new(m)),
            None => Got::No,
        }
    }

    /// Checks what holds for every reply; returns the decoded message if it is a message.
    fn check(&mut self, k: &mut Kernel, i: usize, raw: &[u8]) -> Option<Msg> {
        let o = &self.ops[i];
        let m = match Msg::decode(raw) {
            Ok(m) => m,
            Err(e) => {
                k.violation("C03", "malformed-reply", format!("the reply to {} is not a message: {}: {}", o.brief(), e, hex(raw)));
                return None;
            }
        };
        let req = if o.tcp { &o.stream[2..] } else { &o.msg[..] };
        let v = |k: &mut Kernel, c: &str, s: String| k.violation("C01", c, format!("the reply to {} {}: {}", o.brief(), s, m.brief()));
        if !m.h.qr {
            v(k, "reply-qr", "has no response flag".into());
        }
        if Some(m.h.id) != o.id {
            v(k, "reply-id", format!("has another ID than {:?}", o.id));
        }
        if m.h.opcode != (req[2] >> 3 & 15) {
            v(k, "reply-opcode", "has another opcode".into());
        }
        if m.h.rd != (req[2] & 1 != 0) {
            v(k, "reply-rd", "has another recursion-desired flag".into());
        }
        // (Only what no message can carry may be cut off.)
        if m.h.tc && o.tcp && raw.len() < 60_000 {
            k.violation("C03", "tcp-truncated", format!("the TCP reply to {} is flagged as truncated", o.brief()));
        }
        match &o.cls {
            Cls::Query { q, trailing, .. } => {
                if m.q != vec![q.clone()] && !(*trailing && m.h.rcode == 1 && m.q.is_empty()) {
                    v(k, "reply-question", "does not repeat the question".into());
                }
                if m.h.rcode == 4 || (m.h.rcode == 1 && !trailing) {
                    k.violation("C04", "query-rejected", format!("the well-formed {} was answered with code {}", o.brief(), m.h.rcode));
                }
            }
            Cls::Err(codes) => {
                if !codes.contains(&m.h.rcode) {
                    k.violation("C04", "wrong-code", format!("{} ({}) was answered with code {} instead of {:?}", o.brief(), hex(&req[..req.len().min(80)]), m.h.rcode, codes));
                }
                if m.h.tc || !m.an.is_empty() || !m.ns.is_empty() || !m.ar.is_empty() {
                    k.violation("C03", "error-with-records", format!("the error reply to {} is flagged as truncated or has records: {}", o.brief(), m.brief()));
                }
            }
            _ => {}
        }
        Some(m)
    }

    /// The segments follow the establishment.
    pub fn tcp_established(&mut self, k: &mut Kernel, conn: usize) {
        let Some(&i) = self.by_conn.get(&conn) else { return };
        for (s, (_, t)) in self.ops[i].segs.clone().into_iter().enumerate() {
            k.timer(k.now + 1 + t, SEGM | (s as u64) << 32 | i as u64);
        }
        let op = &self.ops[i];
        let last = op.segs.last().map(|s| s.1).unwrap_or(0).max(op.end_at);
        if op.end != "keep" {
            let e = if op.end_at > 0 { op.end_at } else { last };
            if op.end == "finrst" {
                k.timer(k.now + e + 2 + op.gap, ENDT | 1 << 32 | i as u64);
            }
            k.timer(k.now + e + 2, ENDT | i as u64);
        }
    }
    pub fn tcp_accepted(&mut self, k: &mut Kernel, conn: usize) {
        if let Some(&i) = self.by_conn.get(&conn) {
            self.ops[i].accepted = Some(k.now);
            self.ops[i].accept_no = self.ops.iter().map(|o| o.accept_no).max().unwrap_or(0) + 1;
        }
    }
    pub fn tcp_arrived(&mut self, k: &mut Kernel, conn: usize, n: usize) {
        if let Some(&i) = self.by_conn.get(&conn) {
            let o = &mut self.ops[i];
            o.last_event = k.now;
            if n > 0 {
                let sum = o.arr.last().map(|a| a.1).unwrap_or(0) + n;
                o.arr.push((k.now, sum));
            }
        }
    }
    pub fn tcp_refused(&mut self, _k: &mut Kernel, conn: usize) {
        if let Some(&i) = self.by_conn.get(&conn) {
            self.ops[i].refused = true;
        }
    }
    pub fn tcp_closed(&mut self, k: &mut Kernel, conn: usize) {
        if let Some(&i) = self.by_conn.get(&conn) {
            self.ops[i].closed = Some(k.now);
        }
    }
    pub fn tcp_data(&mut self, conn: usize, n: usize) {
        if let Some(&i) = self.by_conn.get(&conn) {
            self.ops[i].got_bytes += n;
        }
    }
    pub fn tcp_wrote(&mut self, k: &mut Kernel, conn: usize, data: &[u8]) -> Got {
        let Some(&i) = self.by_conn.get(&conn) else { return Got::No };
        let first = self.ops[i].out.is_empty();
        if first {
            self.ops[i].out_start = Some(k.now);
        }
        self.ops[i].out_last = k.now;
        self.ops[i].out.extend_from_slice(data);
        let o = &self.ops[i];
        if first {
            if o.cls == Cls::Nothing {
                k.violation_all(&["C01", "C04"], "answered-non-query", format!("{} was answered: {}", o.brief(), hex(data)));
            }
            if o.arr.last().map(|a| a.1).unwrap_or(0) < o.frame_end().unwrap_or(0) {
                k.violation_all(&["C01", "C05"], "answered-early", format!("{} was answered when only {} bytes had arrived", o.brief(), o.arr.last().map(|a| a.1).unwrap_or(0)));
            }
        }
        if o.out.len() >= 2 {
            let n = 2 + ((o.out[0] as usize) << 8 | o.out[1] as usize);
            if o.out.len() > n {
                k.violation("C03", "tcp-length", format!("{} was answered with more than the announced {} bytes: {}", o.brief(), n - 2, hex(&o.out[..o.out.len().min(200)])));
                return Got::No;
            }
            if o.out.len() == n && o.out_done.is_none() {
                self.ops[i].out_done = Some(k.now);
                let raw = self.ops[i].out[2..].to_vec();
                self.ops[i].replies.push(Reply { at: k.now, raw: raw.clone() });
                if self.ops[i].cls == Cls::Nothing {
                    return Got::No;
                }
                return match self.check(k, i, &raw) {
                    Some(m) => Got::Reply(i, Box::new(m)),
                    None => Got::No,
                };
            }
        }
        Got::No
    }

    /// Must this TCP request be answered, given what arrived when?
    fn tcp_must(&self, k: &Kernel, o: &Op) -> bool {
        let (Some(acc), Some(need)) = (o.accepted, o.frame_end()) else { return false };
        if o.excused > 0 || o.refused || matches!(o.cls, Cls::Nothing | Cls::Optional) || o.rst_at.is_some() {
            return false;
        }
        let Some(done) = o.arr.iter().find(|a| a.1 >= need) else { return false };
        let mut prev = acc;
        for a in &o.arr {
            if a.0 > done.0 {
                break;
            }
            if a.0.saturating_sub(prev) + MS > self.read_to {
                return false;
            }
            prev = prev.max(a.0);
        }
        !o.noread || k.net.sndcap >= 66_000
    }

    /// The latest time by which each accepted connection must have been closed.
    fn close_bounds(&self, k: &Kernel) -> BTreeMap<usize, u64> {
        let mut v: Vec<&Op> = self.ops.iter().filter(|o| o.accepted.is_some()).collect();
        v.sort_by_key(|o| o.accept_no);
        let mut free = vec![0u64; self.tcp_threads.max(1)];
        let mut res = BTreeMap::new();
        for o in v {
            let w = (0..free.len()).min_by_key(|w| free[*w]).unwrap();
            let s = free[w].max(o.accepted.unwrap());
            let need = o.frame_end().unwrap_or(usize::MAX);
            let mut e = match o.arr.iter().find(|a| a.1 >= need) {
                Some(a) => s.max(a.0),
                None => s.max(o.last_event) + self.read_to,
            };
            if o.noread && k.net.sndcap < 66_000 {
                e += 2 * self.write_to;
            }
            // Sending the answer takes as long as the client takes to read it.
            if let (false, Some(a)) = (o.noread, o.out_start) {
                e += o.out_last - a;
                if o.out_done.is_none() {
                    // It went away meanwhile; the server may learn that later.
                    e = e.max(o.last_event.min(e + self.write_to));
                }
            }
            // Cost of the work itself.
            e += 20 * MS;
            free[w] = e;
            res.insert(o.i, e + k.total_stall + 20 * MS);
        }
        res
    }

    /// Time until everything that clients have started must be over.
    pub fn settle(&self, k: &Kernel) -> u64 {
        let last = self.ops.iter().map(|o| self.base + o.t + o.segs.last().map(|s| s.1).unwrap_or(0).max(o.end_at)).max().unwrap_or(0);
        let b = self.close_bounds(k).values().max().copied().unwrap_or(0);
        last.max(b).max(k.now) + 100 * MS
    }
    /// Is some answer on its way to a client that reads it?
    pub fn transferring(&self, k: &Kernel) -> bool {
self.ops.iter().any(|o| o.tcp && o.accepted.is_some() && o.closed.is_none()) && self.ops.iter().any(|o| !o.noread && o.out_start.is_some() && k.now < o.out_last + SEC)
    }
    /// Are all connections accepted and closed again?
    pub fn all_closed(&self) -> bool {
        self.ops.iter().filter(|o| o.tcp && o.conn.is_some() && !o.refused).all(|o| o.closed.is_some() || (o.rst_at.is_some() && o.accepted.is_none()) || (o.excused > 0 && o.accepted.is_none()))
    }

    /// The checks over the whole history. `ops` of `recover` are those sent after the faults.
    pub fn finish(&mut self, k: &mut Kernel, recover: std::ops::Range<usize>, dead: bool) {
        let bounds = if self.strict_latency { self.close_bounds(k) } else { BTreeMap::new() };
        let mut overlap = 0;
        for o in &self.ops {
            let rec = recover.contains(&o.i);
            if !o.tcp {
                if matches!(o.cls, Cls::Nothing | Cls::Optional) || dead {
                    continue;
                }
                if (o.replies.len() as u32 + o.excused) < o.taken || o.queued > o.taken {
                    let c = if o.queued > o.taken { "never-received" } else { "unanswered" };
                    let ps: &[&str] = match (&o.cls, rec) {
                        (Cls::Query { .. }, true) => &["C01", "C02"],
                        (Cls::Query { .. }, false) => &["C01"],
                        _ => &["C04"],
                    };
                    k.violation_all(ps, c, format!("{} arrived {} times, was received {} times and answered {} times; panics {:?}", o.brief(), o.queued, o.taken, o.replies.len(), k.panics.iter().map(|p| &p.2).take(2).collect::<Vec<_>>()));
                }
                continue;
            }
            if o.conn.is_none() {
                continue;
            }
            if !o.out.is_empty() && o.out_done.is_none() && o.excused == 0 && o.rst_at.is_none() && !(o.noread && k.net.sndcap < 66_000) {
                k.violation("C03", "tcp-incomplete", format!("the reply to {} stopped after {} bytes", o.brief(), o.out.len()));
            }
            if dead {
                continue;
            }
            if o.segs.len() > 1 {
                overlap += 1;
            }
            let must = self.tcp_must(k, o);
            if must && o.replies.is_empty() && o.out.is_empty() {
                let ps: &[&str] = match (&o.cls, rec) {
                    (Cls::Query { .. }, true) => &["C01", "C02", "C05"],
                    (Cls::Query { .. }, false) => &["C01", "C05"],
                    _ => &["C04"],
                };
                k.violation_all(ps, "tcp-unanswered", format!("{} arrived ({:?}), was accepted at {:?} and closed at {:?} without an answer; panics {:?}", o.brief(), o.arr, o.accepted, o.closed, k.panics.iter().map(|p| &p.2).take(2).collect::<Vec<_>>()));
            }
            if o.accepted.is_none() && !o.refused && o.excused == 0 && o.rst_at.is_none() {
                k.violation_all(&["C05", "C02"], "never-accepted", format!("the connection of {} was never accepted", o.brief()));
                continue;
            }
            // Freed in time?
            if let (Some(b), Some(_)) = (bounds.get(&o.i), o.accepted) {
                let c = o.closed.unwrap_or(u64::MAX);
                if c > *b && k.now > *b {
                    k.violation("C05", "not-freed-in-time", format!("the connection of {} was accepted at {:.3} ms; the last client event was at {:.3} ms; it was closed at {} (bound {:.3} ms); read timeout {} s, write timeout {} s, {} threads", o.brief(), o.accepted.unwrap() as f64 / 1e6, o.last_event as f64 / 1e6, o.closed.map(|c| format!("{:.3} ms", c as f64 / 1e6)).unwrap_or("(never)".into()), *b as f64 / 1e6, self.read_to / SEC, self.write_to / SEC, self.tcp_threads));
                }
            }
        }
        if overlap > 0 {
            *k.probes.entry("segmented TCP requests".into()).or_insert(0) += overlap;
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|c| format!("{:02x}", c)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

// ----- generators -----

pub fn query_msg(r: &mut Rng, id: u16, name: &str, ty: u16) -> Vec<u8> {
    let mut m = Msg::query(id, name, ty, r.below(2) == 0);
    if r.below(12) == 0 {
        m.h.z = r.below(8) as u8;
    }
    if r.below(16) == 0 {
        m.h.tc = true;
    }
    if r.below(16) == 0 {
        m.h.aa = true;
    }
    if r.below(6) == 0 {
        // EDNS
        let n = if r.below(3) == 0 {
            // Padded, up to the longest datagram there can be.
            let total = *r.pick(&[512usize, 512, 511, 468, 256, 128]);
            total.saturating_sub(m.encode(false).len() + 11)
        } else {
            r.below(8) as usize
        };
        m.ar.push(Rr { name: ".".into(), ty: 41, class: 1232, ttl: 0, data: Data::Raw(vec![0; n]) });
    } else if r.below(25) == 0 {
        m.ar.push(Rr::a("extra.example.", 5, [1, 2, 3, 4]));
    }
    m.encode(false)
}

fn rnd_rr(r: &mut Rng) -> Rr {
    let n = "h.example.com.";
    let ty = *r.pick(KNOWN);
    let data = match ty {
        A => Data::A([9, 9, 9, 9]),
        NS | CNAME | PTR => Data::Name("t.example.org.".into()),
        SOA => Data::Soa("a.b.".into(), "c.d.".into(), [1, 2, 3, 4, 5]),
        WKS => Data::Wks([1, 2, 3, 4], 6, (0..r.below(20)).map(|_| r.below(256) as u8).collect()),
        HINFO => Data::Hinfo(b"cpu".to_vec(), b"os".to_vec()),
        MX => Data::Mx(5, "m.example.org.".into()),
        _ => Data::Txt((0..r.range(1, 3)).map(|_| vec![b'x'; r.below(30) as usize]).collect()),
    };
    Rr { name: n.into(), ty, class: 1, ttl: r.below(1 << 32) as u32, data }
}

/// A hostile or unprocessable message. `reply` asks for a message in the role of a
/// response (used as an upstream reply) instead of a request.
pub fn hostile_msg(r: &mut Rng, id: u16, name: &str, ty: u16, reply: bool) -> (Vec<u8>, &'static str) {
    let mut m = Msg::query(id, name, ty, r.below(2) == 0);
    m.h.qr = reply;
    let base = m.encode(false);
    let junk = |r: &mut Rng, n: u64| -> Vec<u8> { (0..n).map(|_| r.below(256) as u8).collect() };
    let set16 = |b: &mut Vec<u8>, at: usize, v: u64| {
        b[at] = (v >> 8) as u8;
        b[at + 1] = v as u8;
    };
    match r.below(26) {
        0 => {
            let mut b = base[..12.min(base.len())].to_vec();
            let n = r.below(60);
            b.extend(junk(r, n));
            (b, "random body")
        }
        1 => {
            let n = r.below(14);
            let mut b = base;
            b.truncate(n as usize);
            (b, "short")
        }
        2 => {
            let n = r.range(12, base.len() as u64 - 1);
            let mut b = base;
            b.truncate(n as usize);
            (b, "cut off")
        }
        3 => {
            m.h.qr = !reply;
            (m.encode(false), "response flag")
        }
        4 => {
            m.h.opcode = r.range(1, 15) as u8;
            (m.encode(false), "opcode")
        }
        5 => {
            m.h.rcode = r.below(16) as u8;
            m.h.z = r.below(8) as u8;
            (m.encode(false), "rcode")
        }
        6 => {
            let mut b = base;
            let at = 4 + 2 * r.below(4) as usize;
            let v = *r.pick(&[0u64, 2, 3, 255, 256, 65_535]);
            set16(&mut b, at, v);
            (b, "counts")
        }
        7 => {
            for _ in 0..r.range(1, 3) {
                let q = Q { name: "two.example.com.".into(), ty: *r.pick(&[1u16, 255, 28, 16, 65, 3]), class: *r.pick(&[1u16, 1, 3]) };
                m.q.push(q);
            }
            r.shuffle(&mut m.q);
            (m.encode(r.below(2) == 0), "several questions")
        }
        8 => {
            for _ in 0..r.range(1, 3) {
                let x = rnd_rr(r);
                if r.below(2) == 0 {
                    m.an.push(x);
                } else {
                    m.ns.push(x);
                }
            }
            (m.encode(r.below(2) == 0), "records in a query")
        }
        9 => {
            m.q[0].ty = *r.pick(&[3u16, 4, 7, 8, 9, 10, 14, 252, 253, 254, 255]);
            (m.encode(false), "unsupported type")
        }
        10 => {
            m.q[0].ty = *r.pick(&[0u16, 17, 28, 33, 41, 65, 99, 251, 256, 257, 65_535]);
            (m.encode(false), "unknown type")
        }
        11 => {
            m.q[0].class = *r.pick(&[0u16, 2, 3, 4, 5, 254, 255, 256, 65_535]);
            (m.encode(false), "class")
        }
        12..=14 => {
            // A name made of pointers.
            let mut b = base[..12].to_vec();
            let what = match r.below(8) {
                0 => {
                    b.extend([0xC0, 12]);
                    "pointer to itself"
                }
                1 => {
                    let o = *r.pick(&[0xFFu8, 0x80, 60]);
                    b.extend([0xC0 | r.below(64) as u8, o]);
                    "pointer out of range"
                }
                2 => {
                    b.extend([1, b'a', 0xC0, 12]);
                    "pointer loop"
                }
                3 => {
                    b.extend([0xC0, 18, 0, 1, 0, 1, 1, b'z', 0]);
                    set16(&mut b, 10, 0);
                    "forward pointer"
                }
                4 => {
                    let n = r.range(1, 40);
                    for i in 0..n {
                        let o = 12 + 2 * (i + 1);
                        b.extend([0xC0 | (o >> 8) as u8, o as u8]);
                    }
                    b.push(0);
                    "pointer chain"
                }
                5 => {
                    b.push(0xC0);
                    "half a pointer"
                }
                6 => {
                    b.extend([*r.pick(&[0x40u8, 0x80, 0xBF, 0x7F]), b'a', b'a', 0]);
                    "reserved label type"
                }
                _ => {
                    b.extend([0xC0, r.below(40) as u8]);
                    "pointer somewhere"
                }
            };
            if r.below(5) > 0 {
                b.extend([0, 1, 0, 1]);
            }
            (b, what)
        }
        15 => {
            let mut b = base[..12].to_vec();
            match r.below(4) {
                0 => {
                    // Long names.
                    for _ in 0..r.range(3, 6) {
                        let n = r.range(40, 63) as u8;
                        b.push(n);
                        b.extend(vec![b'a'; n as usize]);
                    }
                    b.push(0);
                }
                1 => {
                    let n = r.range(1, 10);
                    b.push(n as u8);
                    b.extend(junk(r, n));
                    b.push(0);
                }
                2 => b.extend([3, b'a', b'.', b'b', 1, b'.', 0]),
                _ => {
                    for _ in 0..126 {
                        b.extend([1, b'a']);
                    }
                    b.push(0);
                }
            }
            b.extend([0, 1, 0, 1]);
            (b, "strange labels")
        }
        16..=20 => {
            // Additional records whose data lies about its length.
            let n = r.range(1, 3);
            for _ in 0..n {
                let x = rnd_rr(r);
                match r.below(if reply { 3 } else { 1 }) {
                    0 => m.ar.push(x),
                    1 => m.an.push(x),
                    _ => m.ns.push(x),
                }
            }
            let mut b = m.encode(r.below(2) == 0);
            let start = *Msg::decode(&b).unwrap().ends.first().unwrap();
            match r.below(6) {
                0 => {
                    let at = r.range(start as u64, b.len() as u64 - 1) as usize;
                    b.truncate(at);
                }
                1 => {
                    let at = r.range(start as u64, b.len() as u64 - 1) as usize;
                    b[at] = r.below(256) as u8;
                }
                2..=4 => {
                    // The data length of the first record.
                    let mut p = start;
                    while p < b.len() && b[p] != 0 && b[p] < 0xC0 {
                        p += 1 + b[p] as usize;
                    }
                    p += if p < b.len() && b[p] >= 0xC0 { 2 } else { 1 };
                    if p + 10 <= b.len() {
                        let old = (b[p + 8] as u64) << 8 | b[p + 9] as u64;
                        let v = *r.pick(&[0u64, 1, 2, 4, 5, 6, old + 1, old.saturating_sub(1), 255, 8191, 8192, 8193, 16_384, 32_768, 65_535]);
                        set16(&mut b, p + 8, v);
                        if r.below(3) == 0 {
                            let t = *r.pick(KNOWN) as u64;
                            set16(&mut b, p, t);
                        }
                    }
                }
                _ => {
                    let at = r.below(b.len() as u64) as usize;
                    b[at] ^= 1 << r.below(8);
                }
            }
            // Keep the ID: it identifies the request.
            set16(&mut b, 0, id as u64);
            (b, "lying records")
        }
        21 => {
            let mut b = base;
            for _ in 0..r.range(1, 4) {
                let at = r.range(2, b.len() as u64 - 1) as usize;
                b[at] ^= 1 << r.below(8);
            }
            (b, "flipped bits")
        }
        22 => {
            let mut b = base;
            let n = r.range(1, 40);
            b.extend(junk(r, n));
            (b, "trailing bytes")
        }
        23 => {
            let n = r.range(3, 700);
            let mut b = junk(r, n);
            set16(&mut b, 0, id as u64);
            (b, "random bytes")
        }
        24 => {
            let mut b = base;
            b.extend(vec![0; 600]);
            set16(&mut b, 10, r.below(50));
            (b, "long datagram")
        }
        _ => {
            let k = r.range(1, 30);
            for _ in 0..k {
                m.ar.push(Rr { name: ".".into(), ty: *r.pick(&[41u16, 65, 257, 10, 48]), class: 1, ttl: 0, data: Data::Raw(vec![0; 4]) });
            }
            (m.encode(false), "unknown additionals")
        }
    }
}

pub struct Mix {
    pub n: u64,
    pub span_us: u64,
    /// Of 100.
    pub tcp: u64,
    pub hostile: u64,
    pub stall: u64,
    pub clients: u64,
    pub read_s: u64,
}

/// Generates requests; `ask` supplies the name and type of well-formed ones.
pub fn generate_ops(r: &mut Rng, x: &Mix, ask: &mut dyn FnMut(&mut Rng) -> (String, u16)) -> Vec<Value> {
    let mut ops = vec![];
    let mut ids: BTreeSet<(u64, u16)> = BTreeSet::new();
    let shared: Vec<u16> = (0..6).map(|_| r.below(65_536) as u16).collect();
    for _ in 0..x.n {
        let tcp = r.below(100) < x.tcp;
        let cl = r.below(x.clients);
        let id = loop {
            let id = if r.below(3) == 0 { *r.pick(&shared) } else { r.below(65_536) as u16 };
            if ids.insert((cl, id)) {
                break id;
            }
        };
        let (name, ty) = ask(r);
        let hostile = r.below(100) < x.hostile;
        let (msg, what) = if hostile { hostile_msg(r, id, &name, ty, false) } else { (query_msg(r, id, &name, ty), "query") };
        let burst = r.below(3) == 0;
        let t = if burst { (r.below(4) * x.span_us) / 4 } else { r.below(x.span_us) };
        let mut o = json!({"t": t, "cl": cl, "hex": hex(&msg), "what": if hostile { what.to_string() } else { format!("{} {}", name, ty) }});
        if hostile && !tcp && r.below(25) == 0 {
            o["port"] = json!(0);
        }
        if tcp {
            o["tcp"] = json!(true);
            let n = msg.len() as u64 + 2;
            let rto = x.read_s * 1_000_000;
            let mut segs: Vec<(u64, u64)> = vec![];
            match r.below(6) {
                0 | 1 => {}
                2 => {
                    for _ in 0..n.min(200) {
                        segs.push((1, *r.pick(&[0u64, 0, 10, 1000])));
                    }
                }
                3 => segs.extend([(1, 0), (1, *r.pick(&[0u64, 5000])), (n, *r.pick(&[0u64, 1000, rto - 20_000]))]),
                _ => {
                    for _ in 0..r.range(1, 5) {
                        segs.push((r.range(1, n), *r.pick(&[0u64, 100, 20_000, 300_000, rto / 2, rto - 50_000])));
                    }
                }
            }
            if r.below(100) < x.stall {
                match r.below(8) {
                    0 => o["stop"] = json!(0),
                    1 => o["stop"] = json!(1),
                    2 => o["stop"] = json!(2),
                    3 => o["stop"] = json!(r.range(2, n - 1)),
                    4 => {
                        // A gap longer than the read timeout.
                        let at = r.range(1, n - 1);
                        segs = vec![(at, 0), (n, rto + *r.pick(&[20_000u64, 500_000, 3_000_000]))];
                    }
                    5 => o["len"] = json!(*r.pick(&[0u64, 1, 5, 11, 12, n.saturating_sub(3), n - 1, n + 10, 65_535])),
                    6 => o["noread"] = json!(true),
                    _ => {
                        // A slow trickle.
                        let s = r.range(1, 4);
                        segs = (0..s).map(|_| (n / s, rto - 100_000)).collect();
                    }
                }
                match r.below(4) {
                    0 => o["end"] = json!("fin"),
                    1 if r.below(2) == 0 => {
                        o["end"] = json!("finrst");
                        o["gap_us"] = json!(*r.pick(&[0u64, 1, 100, 10_000]));
                    }
                    1 => o["end"] = json!("rst"),
                    _ => {}
                }
                if r.below(2) == 0 {
                    o["end_us"] = json!(*r.pick(&[1u64, 300, 2000, 500_000, rto + 100_000]));
                }
            } else if r.below(5) == 0 {
                // Half-closed after the query: it is still answered.
                o["end"] = json!("fin");
            } else if r.below(20) == 0 {
                // The client goes away while the reply is made.
                o["end"] = json!(*r.pick(&["rst", "finrst"]));
                o["gap_us"] = json!(*r.pick(&[0u64, 1, 10, 100, 1000, 10_000]));
                if r.below(2) == 0 {
                    o["end_us"] = json!(*r.pick(&[1u64, 50, 300, 2000, 30_000, 500_000]));
                }
            }
            if r.below(14) == 0 {
                let e = query_msg(r, id.wrapping_add(1), "second.example.com.", 1);
                o["extra"] = json!(hex(&e));
            }
            if !segs.is_empty() {
                o["segs"] = json!(segs);
            }
        }
        ops.push(o);
    }
    ops.sort_by_key(|o| o["t"].as_u64());
    ops
}
