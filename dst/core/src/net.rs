//! Virtual network: sockets of the process under test, UDP datagrams, TCP connections.
//! All environment endpoints (clients, upstream servers, attackers) live in the World.
use crate::case::*;
use crate::kernel::*;
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Addr {
    pub ip: u32,
    pub port: u16,
}
impl Addr {
    pub fn new(ip: [u8; 4], port: u16) -> Addr {
        Addr { ip: u32::from_be_bytes(ip), port }
    }
}
impl From<Addr> for std::net::SocketAddr {
    fn from(a: Addr) -> Self {
        match is_v6(a.ip) {
            true => (v6_bytes(a.ip), a.port).into(),
            false => (a.ip.to_be_bytes(), a.port).into(),
        }
    }
}
impl std::fmt::Display for Addr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if is_v6(self.ip) {
            return write!(f, "[{}]:{}", std::net::Ipv6Addr::from(v6_bytes(self.ip)), self.port);
        }
        let b = self.ip.to_be_bytes();
        write!(f, "{}.{}.{}.{}:{}", b[0], b[1], b[2], b[3], self.port)
    }
}
pub const HOST_IP: u32 = u32::from_be_bytes([10, 0, 0, 53]);
pub const LOOPBACK: u32 = u32::from_be_bytes([127, 0, 0, 1]);

// IPv6 addresses are known by a number, too, in a range that IPv4 hosts do not have:
// `::`, `::1`, and otherwise fd00::xx:xxxx.
pub const V6_ANY: u32 = 0xFD00_0000;
pub const V6_LOOP: u32 = 0xFD00_0001;
pub const V6_HOST: u32 = 0xFD00_0035;
pub fn is_v6(ip: u32) -> bool {
    ip >> 24 == 0xFD
}
pub fn is_any(ip: u32) -> bool {
    ip == 0 || ip == V6_ANY
}
pub fn is_loopback(ip: u32) -> bool {
    ip >> 24 == 127 || ip == V6_LOOP
}
pub fn v6_bytes(ip: u32) -> [u8; 16] {
    let mut b = [0; 16];
    if !is_v6(ip) {
        // An IPv4 address as an IPv6 socket shows it.
        b[10..12].copy_from_slice(&[0xff, 0xff]);
        b[12..].copy_from_slice(&ip.to_be_bytes());
        return b;
    }
    b[13..].copy_from_slice(&ip.to_be_bytes()[1..]);
    if ip > V6_LOOP {
        b[0] = 0xfd;
    }
    b
}
pub fn v6_number(b: [u8; 16]) -> Option<u32> {
    let low = u32::from_be_bytes([b[12], b[13], b[14], b[15]]);
    match b {
        [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, ..] => Some(low),
        [h, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, ..] if h == 0xfd && low > 1 || h == 0 && low <= 1 => Some(V6_ANY | low),
        _ => None,
    }
}
/// Does a socket bound to this address of all interfaces get what is sent to `dst`?
fn any_takes(any: u32, dst: u32) -> bool {
    is_local_ip(dst) && (any == V6_ANY || any == 0 && !is_v6(dst))
}

#[derive(Clone, Debug)]
pub enum Seg {
    Syn,
    SynAck,
    Refuse,
    Data(Vec<u8>),
    Fin,
    Rst,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Owner {
    World,
    Sock(usize),
    /// Accepted by the network, waiting in a listener's backlog.
    Backlog,
    Gone,
}

pub struct End {
    pub owner: Owner,
    pub addr: Addr,
    pub rx: VecDeque<u8>,
    pub rx_fin: bool,
    pub rx_rst: bool,
    /// The error the reset left for the next call that reports one.
    pub rst_err: i32,
    pub sent_fin: bool,
    pub last_at: u64,
    /// Bytes sent by this end and not yet taken by the peer.
    pub unread_by_peer: usize,
    /// Does this (world) end consume data as it arrives?
    pub reading: bool,
    pub established: bool,
}

pub struct Conn {
    pub ends: [End; 2],
    pub refused: Option<i32>,
    pub sndcap: usize,
}

pub enum Kind {
    New,
    Udp { q: VecDeque<(Addr, Vec<u8>)>, peer: Option<Addr>, err: Option<i32> },
    Listener { q: VecDeque<usize> },
    Stream { conn: usize, end: usize },
}

pub struct Sock {
    pub kind: Kind,
    pub dgram: bool,
    pub v6: bool,
    pub local: Option<Addr>,
    pub rcvto: u64,
    pub sndto: u64,
    pub nonblock: bool,
    pub refs: u32,
    pub so_error: i32,
}

pub const FD0: i32 = 1000;

pub struct Net {
    pub socks: Vec<Sock>,
    /// fd - FD0 -> socket index
    pub fds: Vec<Option<usize>>,
    pub conns: Vec<Conn>,
    pub eph: u16,
    pub eph_rng: crate::rng::Rng,
    pub lat: u64,
    pub udp_cap: usize,
    pub sndcap: usize,
    pub counts: BTreeMap<&'static str, u64>,
    pub max_fds: usize,
    pub loop_lat: u64,
    pub short_writes: u64,
}

impl Net {
    pub fn new(case: &Case) -> Net {
        Net {
            socks: vec![],
            fds: vec![],
            conns: vec![],
            eph: 0,
            eph_rng: crate::rng::Rng::new(case.seed ^ 0xE9),
            lat: case.p("lat_us", 500) as u64 * US,
            udp_cap: case.p("udp_cap", 400) as usize,
            sndcap: case.p("sndcap", 87_380) as usize,
            counts: BTreeMap::new(),
            max_fds: case.p("max_fds", 4000) as usize,
            loop_lat: 20 * US,
            short_writes: 0,
        }
    }
    pub fn count(&mut self, n: &'static str) {
        *self.counts.entry(n).or_insert(0) += 1;
    }
    fn alloc_fd(&mut self, sock: usize) -> i32 {
        let i = match self.fds.iter().position(|f| f.is_none()) {
            Some(i) => i,
            None => {
                self.fds.push(None);
                self.fds.len() - 1
            }
        };
        self.fds[i] = Some(sock);
        FD0 + i as i32
    }
    pub fn sock_of(&self, fd: i32) -> Option<usize> {
        self.fds.get((fd - FD0) as usize).copied().flatten()
    }
    pub fn open_brief(&self) -> String {
        let v: Vec<String> = self.fds.iter().flatten().take(12).map(|s| {
                let x = &self.socks[*s];
                let kind = match &x.kind {
                    Kind::New => "new".to_string(),
                    Kind::Udp { peer, .. } => format!("UDP to {:?}", peer),
                    Kind::Listener { .. } => "listener".into(),
                    Kind::Stream { conn, .. } => format!("connection {}", conn),
                };
                format!("{} at {:?}", kind, x.local)
            }).collect();
        v.join(", ")
    }
    pub fn open_fds(&self) -> usize {
        self.fds.iter().filter(|f| f.is_some()).count()
    }
}

pub fn is_local_ip(ip: u32) -> bool {
    ip == HOST_IP || ip == V6_HOST || is_loopback(ip)
}

/// What is sent to the address of all interfaces goes to the host itself.
fn to_loopback(a: Addr) -> Addr {
    let ip = match a.ip {
        0 => LOOPBACK,
        V6_ANY => V6_LOOP,
        ip => ip,
    };
    Addr { ip, port: a.port }
}

type R<T> = Result<T, i32>;

impl Kernel {
    fn udp_target(&self, dst: Addr) -> Option<usize> {
        let mut any = None;
        for (i, s) in self.net.socks.iter().enumerate() {
            if s.refs == 0 || !matches!(s.kind, Kind::Udp { .. }) {
                continue;
            }
            if let Some(l) = s.local {
                if l == dst {
                    return Some(i);
                }
                if l.port == dst.port && any_takes(l.ip, dst.ip) {
                    any = Some(i);
                }
            }
        }
        any
    }
    fn listener_target(&self, dst: Addr) -> Option<usize> {
        let mut any = None;
        for (i, s) in self.net.socks.iter().enumerate() {
            if s.refs == 0 || !matches!(s.kind, Kind::Listener { .. }) {
                continue;
            }
            if let Some(l) = s.local {
                if l == dst {
                    return Some(i);
                }
                if l.port == dst.port && any_takes(l.ip, dst.ip) {
                    any = Some(i);
                }
            }
        }
        any
    }
    /// Does this address belong to the process under test?
    pub fn is_sut_ip(&self, ip: u32) -> bool {
        is_local_ip(ip) || self.net.socks.iter().any(|s| s.refs > 0 && s.local.map(|l| l.ip == ip && !is_any(ip)).unwrap_or(false))
    }

    /// Sends a datagram into the network.
    pub fn net_udp(&mut self, src: Addr, dst: Addr, data: Vec<u8>) {
        if is_local_ip(src.ip) && is_local_ip(dst.ip) && self.is_sut_ip(dst.ip) {
            let at = self.now + self.net.loop_lat;
            self.post(at, Ev::Udp { src, dst, data });
            return;
        }
        if self.choose(Kd::UdpLoss, 2) == 1 {
            self.net.count("udp_lost");
            self.try_world(|w, k| w.udp_dropped(k, dst, src, &data, "lost"));
            return;
        }
        let dup = self.choose(Kd::UdpDup, 2) == 1;
        let d = self.udp_delay();
        if dup {
            self.net.count("udp_duplicated");
            let d2 = d + self.udp_delay();
            let at = self.now + d2;
            self.post(at, Ev::Udp { src, dst, data: data.clone() });
        }
        let at = self.now + d;
        self.post(at, Ev::Udp { src, dst, data });
    }
    fn udp_delay(&mut self) -> u64 {
        let v = self.choose(Kd::UdpDelay, 32);
        let l = self.net.lat;
        match v {
            0 => l,
            1..=15 => l + l * v / 4,
            16..=25 => l + (v - 15) * 3 * MS,
            26..=29 => l + (v - 25) * 150 * MS,
            _ => l + (v - 29) * 1500 * MS,
        }
    }

    pub fn udp_deliver(&mut self, src: Addr, dst: Addr, data: Vec<u8>) {
        if let Some(i) = self.udp_target(dst) {
            let cap = self.net.udp_cap;
            let s = &mut self.net.socks[i];
            if let Kind::Udp { q, peer, .. } = &mut s.kind {
                if let Some(p) = peer {
                    if *p != src {
                        self.with_world(|w, k| w.udp_dropped(k, dst, src, &data, "filtered"));
                        return;
                    }
                }
                if q.len() >= cap {
                    self.net.count("udp_overflow");
                    self.with_world(|w, k| w.udp_dropped(k, dst, src, &data, "overflow"));
                    return;
                }
                q.push_back((src, data.clone()));
            }
            self.logf(|| format!("udp {} -> {} queued ({} bytes)", src, dst, data.len()));
            self.with_world(|w, k| w.udp_queued(k, dst, src, &data));
            self.wake_sock(i);
            return;
        }
        if self.is_sut_ip(dst.ip) {
            self.with_world(|w, k| w.udp_dropped(k, dst, src, &data, "no socket"));
            return;
        }
        match self.with_world(|w, _| w.udp_port(dst)) {
            PortKind::Open => {
                self.logf(|| format!("udp {} -> {} arrives ({} bytes)", src, dst, data.len()));
                self.with_world(|w, k| w.udp_in(k, dst, src, &data))
            }
            PortKind::Blackhole => {}
            PortKind::Closed => {
                // An ICMP error comes back; Linux reports it on connected sockets only.
                if let Some(i) = self.udp_target(src) {
                    if let Kind::Udp { peer: Some(p), err, .. } = &mut self.net.socks[i].kind {
                        if *p == dst {
                            *err = Some(libc::ECONNREFUSED);
                            self.net.count("icmp_unreachable");
                            self.wake_sock(i);
                        }
                    }
                }
            }
        }
    }

    // ----- TCP, world side -----

    pub fn tcp_connect(&mut self, from: Addr, to: Addr) -> usize {
        let sndcap = self.net.sndcap;
        self.new_conn(Owner::World, from, to, sndcap)
    }

    fn new_conn(&mut self, owner: Owner, from: Addr, to: Addr, sndcap: usize) -> usize {
        let end = |owner, addr| End {
            owner,
            addr,
            rx: VecDeque::new(),
            rx_fin: false,
            rx_rst: false,
            rst_err: 0,
            sent_fin: false,
            last_at: 0,
            unread_by_peer: 0,
            reading: true,
            established: false,
        };
        self.net.conns.push(Conn {
            ends: [end(owner, from), end(Owner::Gone, to)],
            refused: None,
            sndcap,
        });
        let c = self.net.conns.len() - 1;
        self.tcp_seg(c, 0, Seg::Syn);
        c
    }

    /// Queues a segment sent by end `from`; delivery is in order per direction.
    fn tcp_seg(&mut self, conn: usize, from: usize, seg: Seg) {
        let c = &self.net.conns[conn];
        let lo = is_local_ip(c.ends[0].addr.ip) && is_local_ip(c.ends[1].addr.ip);
        let v = if lo { 0 } else { self.choose(Kd::TcpDelay, 24) };
        let l = if lo { self.net.loop_lat } else { self.net.lat };
        let d = match v {
            0 => l,
            1..=12 => l + l * v / 3,
            13..=20 => l + (v - 12) * 4 * MS,
            _ => l + (v - 20) * 200 * MS,
        };
        let e = &mut self.net.conns[conn].ends[from];
        let at = (self.now + d).max(e.last_at + 1);
        e.last_at = at;
        self.post(at, Ev::Tcp { conn, to: 1 - from, seg });
    }

    pub fn tcp_send(&mut self, conn: usize, data: &[u8]) {
        if self.net.conns[conn].ends[0].rx_rst && self.net.conns[conn].ends[0].owner == Owner::World {
            return;
        }
        let from = self.world_end(conn);
        self.net.conns[conn].ends[from].unread_by_peer += data.len();
        self.tcp_seg(conn, from, Seg::Data(data.to_vec()));
    }
    fn world_end(&self, conn: usize) -> usize {
        if self.net.conns[conn].ends[0].owner == Owner::World {
            0
        } else {
            1
        }
    }
    pub fn tcp_fin(&mut self, conn: usize) {
        let e = self.world_end(conn);
        if !self.net.conns[conn].ends[e].sent_fin {
            self.net.conns[conn].ends[e].sent_fin = true;
            self.tcp_seg(conn, e, Seg::Fin);
        }
    }
    pub fn tcp_rst(&mut self, conn: usize) {
        let e = self.world_end(conn);
        if !self.net.conns[conn].ends[e].sent_fin || !self.net.conns[conn].ends[e].rx_rst {
            self.net.conns[conn].ends[e].sent_fin = true;
            self.net.conns[conn].ends[e].rx_rst = true;
            self.tcp_seg(conn, e, Seg::Rst);
        }
    }
    /// A world endpoint stops (or resumes) reading.
    pub fn tcp_reading(&mut self, conn: usize, on: bool) {
        let e = self.world_end(conn);
        self.net.conns[conn].ends[e].reading = on;
        if on {
            let at = self.now;
            self.post(at, Ev::Consume { conn, end: e });
        }
    }
    pub fn world_consume(&mut self, conn: usize, e: usize) {
        if !self.net.conns[conn].ends[e].reading {
            return;
        }
        let data: Vec<u8> = self.net.conns[conn].ends[e].rx.drain(..).collect();
        if !data.is_empty() {
            self.net.conns[conn].ends[1 - e].unread_by_peer -= data.len();
            self.with_world(|w, k| w.tcp_data(k, conn, &data));
            if let Owner::Sock(s) = self.net.conns[conn].ends[1 - e].owner {
                self.wake_sock(s);
            }
        }
        let en = &mut self.net.conns[conn].ends[e];
        if en.rx_fin && en.established {
            en.established = false;
            self.with_world(|w, k| w.tcp_fin(k, conn));
        }
    }

    pub fn tcp_deliver(&mut self, conn: usize, to: usize, seg: Seg) {
        let dst = self.net.conns[conn].ends[to].addr;
        let src = self.net.conns[conn].ends[1 - to].addr;
        self.logf(|| match &seg {
            Seg::Data(d) => format!("tcp#{} {} -> {} {} bytes", conn, src, dst, d.len()),
            s => format!("tcp#{} {} -> {} {:?}", conn, src, dst, s),
        });
        match seg {
            Seg::Syn => {
                if let Some(l) = self.listener_target(dst) {
                    let full = match &self.net.socks[l].kind {
                        Kind::Listener { q } => q.len() >= 128,
                        _ => true,
                    };
                    if full {
                        // The SYN is dropped and retransmitted by the client later.
                        let at = self.now + SEC;
                        self.post(at, Ev::Tcp { conn, to, seg: Seg::Syn });
                        return;
                    }
                    self.net.conns[conn].ends[1].owner = Owner::Backlog;
                    self.net.conns[conn].ends[1].established = true;
                    if let Kind::Listener { q } = &mut self.net.socks[l].kind {
                        q.push_back(conn);
                    }
                    self.tcp_seg(conn, 1, Seg::SynAck);
                    self.wake_sock(l);
                    return;
                }
                if self.is_sut_ip(dst.ip) {
                    self.tcp_seg(conn, 1, Seg::Refuse);
                    return;
                }
                match self.with_world(|w, k| w.tcp_syn(k, conn, dst)) {
                    SynReply::Accept => {
                        self.net.conns[conn].ends[1].owner = Owner::World;
                        self.net.conns[conn].ends[1].established = true;
                        self.tcp_seg(conn, 1, Seg::SynAck);
                    }
                    SynReply::Refuse => self.tcp_seg(conn, 1, Seg::Refuse),
                    SynReply::Ignore => {}
                }
            }
            Seg::SynAck => {
                self.net.conns[conn].ends[0].established = true;
                match self.net.conns[conn].ends[0].owner {
                    Owner::World => self.with_world(|w, k| w.tcp_established(k, conn)),
                    Owner::Sock(s) => self.wake_sock(s),
                    _ => {}
                }
            }
            Seg::Refuse => {
                self.net.conns[conn].refused = Some(libc::ECONNREFUSED);
                match self.net.conns[conn].ends[0].owner {
                    Owner::World => self.with_world(|w, k| w.tcp_refused(k, conn)),
                    Owner::Sock(s) => self.wake_sock(s),
                    _ => {}
                }
            }
            Seg::Data(d) => match self.net.conns[conn].ends[to].owner {
                Owner::Gone => {
                    // Data for a closed socket: the kernel answers with a reset.
                    self.net.conns[conn].ends[1 - to].unread_by_peer = 0;
                    if !self.net.conns[conn].ends[1 - to].rx_rst {
                        self.tcp_seg(conn, to, Seg::Rst);
                    }
                }
                Owner::World => {
                    if self.net.conns[conn].ends[to].rx_rst {
                        self.net.conns[conn].ends[1 - to].unread_by_peer -= d.len();
                        return;
                    }
                    self.net.conns[conn].ends[to].rx.extend(d);
                    self.world_consume(conn, to);
                }
                o => {
                    let n = d.len();
                    self.net.conns[conn].ends[to].rx.extend(d);
                    self.with_world(|w, k| w.tcp_arrived(k, conn, n));
                    if let Owner::Sock(s) = o {
                        self.wake_sock(s);
                    }
                }
            },
            Seg::Fin => {
                self.net.conns[conn].ends[to].rx_fin = true;
                match self.net.conns[conn].ends[to].owner {
                    Owner::World => self.world_consume(conn, to),
                    Owner::Gone => {}
                    o => {
                        self.with_world(|w, k| w.tcp_arrived(k, conn, 0));
                        if let Owner::Sock(s) = o {
                            self.wake_sock(s)
                        }
                    }
                }
            }
            Seg::Rst => {
                let e = &mut self.net.conns[conn].ends[to];
                if e.rx_rst {
                    return;
                }
                e.rx_rst = true;
                e.rst_err = if e.rx_fin { libc::EPIPE } else { libc::ECONNRESET };
                match e.owner {
                    Owner::World => self.with_world(|w, k| w.tcp_rst(k, conn)),
                    Owner::Sock(s) => {
                        self.with_world(|w, k| w.tcp_arrived(k, conn, 0));
                        self.wake_sock(s)
                    }
                    _ => {}
                }
            }
        }
    }

    pub fn tcp_connect_timeout(&mut self, conn: usize) {
        if !self.net.conns[conn].ends[0].established && self.net.conns[conn].refused.is_none() {
            self.net.conns[conn].refused = Some(libc::ETIMEDOUT);
            if let Owner::Sock(s) = self.net.conns[conn].ends[0].owner {
                self.wake_sock(s);
            }
        }
    }

    // ----- system calls of the process under test -----

    fn sock(&mut self, fd: i32) -> R<usize> {
        self.net.sock_of(fd).ok_or(libc::EBADF)
    }

    fn fault(&mut self, kind: Kd, peer: FaultPeer) {
        let tid = self.cur;
        self.with_world(|w, k| w.fault(k, kind, tid, peer));
    }

    /// Allocates a descriptor. The limit on their number is a fault: it holds only
    /// while faults are injected.
    fn new_fd(&mut self, sock: usize, kind: Kd, peer: FaultPeer) -> R<i32> {
        if self.ch.faults_on && self.net.open_fds() >= self.net.max_fds {
            self.net.count("out of descriptors");
            self.fault(kind, peer);
            return Err(libc::EMFILE);
        }
        Ok(self.net.alloc_fd(sock))
    }

    fn peer_of(&self, s: usize) -> FaultPeer {
        match &self.net.socks[s].kind {
            Kind::Stream { conn, .. } => FaultPeer::Conn(*conn),
            Kind::Udp { peer, .. } => FaultPeer::Udp {
                local: self.net.socks[s].local.unwrap_or(Addr { ip: 0, port: 0 }),
                peer: peer.unwrap_or(Addr { ip: 0, port: 0 }),
            },
            _ => FaultPeer::None,
        }
    }

    pub fn sys_socket(&mut self, dgram: bool, nonblock: bool, v6: bool) -> R<i32> {
        if let Some(e) = self.with_world(|w, k| w.socket_errno(k, dgram)) {
            return Err(e);
        }
        if self.choose(Kd::SockErr, 2) == 1 {
            self.fault(Kd::SockErr, FaultPeer::None);
            return Err(libc::EMFILE);
        }
        self.net.socks.push(Sock {
            kind: if dgram {
                Kind::Udp {
                    q: VecDeque::new(),
                    peer: None,
                    err: None,
                }
            } else {
                Kind::New
            },
            dgram,
            v6,
            local: None,
            rcvto: 0,
            sndto: 0,
            nonblock,
            refs: 1,
            so_error: 0,
        });
        let i = self.net.socks.len() - 1;
        let r = self.new_fd(i, Kd::SockErr, FaultPeer::None);
        if r.is_err() {
            self.net.socks[i].refs = 0;
        }
        r
    }

    fn ephemeral(&mut self) -> u16 {
        loop {
            let p = 32768 + self.net.eph_rng.below(28000) as u16;
            if !self.net.socks.iter().any(|s| s.refs > 0 && s.local.map(|l| l.port == p).unwrap_or(false)) {
                return p;
            }
        }
    }

    pub fn sys_bind(&mut self, fd: i32, mut a: Addr) -> R<()> {
        let s = self.sock(fd)?;
        let tcp = !self.net.socks[s].dgram;
        if let Some(e) = self.with_world(|w, _| w.bind_errno(tcp, a)) {
            self.with_world(|w, k| w.bind_failed(k, tcp, a));
            return Err(e);
        }
        if self.choose(Kd::BindErr, 2) == 1 {
            self.fault(Kd::BindErr, FaultPeer::None);
            return Err(libc::EADDRINUSE);
        }
        if a.port == 0 {
            a.port = self.ephemeral();
        } else {
            let clash = self.net.socks.iter().any(|o| {
                o.refs > 0
                    && o.dgram != tcp
                    && o.local.map(|l| l.port == a.port && (l.ip == a.ip || any_takes(l.ip, a.ip) || any_takes(a.ip, l.ip) || is_any(l.ip) && is_any(a.ip))).unwrap_or(false)
                    && !matches!(o.kind, Kind::Stream { .. })
            });
            if clash {
                self.with_world(|w, k| w.bind_failed(k, tcp, a));
                return Err(libc::EADDRINUSE);
            }
        }
        self.net.socks[s].local = Some(a);
        self.mixin(50, a.port as u64);
        if !tcp {
            self.with_world(|w, k| w.bound(k, false, a));
        }
        Ok(())
    }

    pub fn sys_listen(&mut self, fd: i32) -> R<()> {
        let s = self.sock(fd)?;
        if let Some(e) = self.with_world(|w, k| w.listen_errno(k)) {
            return Err(e);
        }
        self.net.socks[s].kind = Kind::Listener { q: VecDeque::new() };
        let a = self.net.socks[s].local.unwrap_or(Addr { ip: 0, port: 0 });
        self.with_world(|w, k| w.bound(k, true, a));
        Ok(())
    }

    pub fn sys_accept(&mut self, fd: i32) -> R<(i32, Addr)> {
        let s = self.sock(fd)?;
        let v = self.choose(Kd::AcceptErr, 13);
        if v > 0 {
            // (Linux reports pending network errors of the new connection, too.)
            let e = [
                0,
                libc::ECONNABORTED,
                libc::EMFILE,
                libc::ENOBUFS,
                libc::EPROTO,
                libc::ENFILE,
                libc::EINTR,
                libc::ENOMEM,
                libc::EPERM,
                libc::ENETDOWN,
                libc::EHOSTUNREACH,
                libc::ETIMEDOUT,
                libc::ECONNABORTED,
            ][v as usize];
            // ECONNABORTED consumes a connection; only report it if there is one.
            if e == libc::ECONNABORTED {
                let c = match &mut self.net.socks[s].kind {
                    Kind::Listener { q } => q.pop_front(),
                    _ => None,
                };
                if let Some(c) = c {
                    self.net.conns[c].ends[1].owner = Owner::Gone;
                    self.tcp_seg(c, 1, Seg::Rst);
                    self.fault(Kd::AcceptErr, FaultPeer::Conn(c));
                    return Err(e);
                }
            } else {
                self.fault(Kd::AcceptErr, FaultPeer::None);
                return Err(e);
            }
        }
        loop {
            let c = match &mut self.net.socks[s].kind {
                Kind::Listener { q } => q.pop_front(),
                _ => return Err(libc::EINVAL),
            };
            if let Some(c) = c {
                let local = self.net.conns[c].ends[1].addr;
                self.net.socks.push(Sock {
                    kind: Kind::Stream { conn: c, end: 1 },
                    dgram: false,
                    v6: self.net.socks[s].v6,
                    local: Some(local),
                    rcvto: 0,
                    sndto: 0,
                    nonblock: false,
                    refs: 1,
                    so_error: 0,
                });
                let i = self.net.socks.len() - 1;
                let fd = match self.new_fd(i, Kd::AcceptErr, FaultPeer::None) {
                    Ok(fd) => fd,
                    Err(e) => {
                        self.net.socks[i].refs = 0;
                        if let Kind::Listener { q } = &mut self.net.socks[s].kind {
                            q.push_front(c);
                        }
                        // A server that tries again at once burns processor time.
                        let dl = self.now + MS;
                        self.block(Wait::Sleep, Some(dl));
                        return Err(e);
                    }
                };
                self.net.conns[c].ends[1].owner = Owner::Sock(i);
                self.mixin(51, c as u64);
                self.with_world(|w, k| w.tcp_accepted(k, c));
                return Ok((fd, self.net.conns[c].ends[0].addr));
            }
            if self.net.socks[s].nonblock {
                return Err(libc::EAGAIN);
            }
            if self.choose(Kd::Eintr, 2) == 1 {
                return Err(libc::EINTR);
            }
            let to = self.net.socks[s].rcvto;
            let dl = if to > 0 { Some(self.now + to) } else { None };
            if self.block(Wait::Sock(s), dl) == R_TIMEOUT {
                return Err(libc::EAGAIN);
            }
        }
    }

    pub fn sys_connect(&mut self, fd: i32, a: Addr) -> R<()> {
        let s = self.sock(fd)?;
        if self.net.socks[s].dgram {
            if self.net.socks[s].local.is_none() {
                let port = self.ephemeral();
                self.net.socks[s].local = Some(Addr { ip: if self.net.socks[s].v6 { V6_ANY } else { 0 }, port });
            }
            if self.choose(Kd::ConnErr, 2) == 1 {
                self.fault(Kd::ConnErr, FaultPeer::Udp { local: self.net.socks[s].local.unwrap(), peer: a });
                return Err(libc::ENETUNREACH);
            }
            if let Kind::Udp { peer, q, .. } = &mut self.net.socks[s].kind {
                *peer = Some(a);
                q.retain(|(f, _)| *f == a);
            }
            return Ok(());
        }
        if let Kind::Stream { conn, .. } = self.net.socks[s].kind {
            // Second connect on the same socket (after EINTR / non-blocking).
            return match (self.net.conns[conn].ends[0].established, self.net.conns[conn].refused) {
                (true, _) => Err(libc::EISCONN),
                (_, Some(e)) => Err(e),
                _ => Err(libc::EALREADY),
            };
        }
        if self.choose(Kd::ConnErr, 2) == 1 {
            self.fault(Kd::ConnErr, FaultPeer::None);
            return Err(libc::ENETUNREACH);
        }
        let port = self.ephemeral();
        let a = to_loopback(a);
        let ip = match (is_local_ip(a.ip), is_v6(a.ip)) {
            (true, false) => LOOPBACK,
            (false, false) => HOST_IP,
            (true, true) => V6_LOOP,
            (false, true) => V6_HOST,
        };
        let local = Addr { ip, port };
        self.net.socks[s].local = Some(local);
        let sndcap = self.net.sndcap;
        let conn = self.new_conn(Owner::Sock(s), local, a, sndcap);
        self.net.socks[s].kind = Kind::Stream { conn, end: 0 };
        let at = self.now + 127 * SEC;
        self.post(at, Ev::TcpTimeout { conn });
        self.wire_event("opening of TCP connection", conn as u64);
        self.with_world(|w, k| w.tcp_connecting(k, conn, a));
        if self.net.socks[s].nonblock {
            return Err(libc::EINPROGRESS);
        }
        let to = self.net.socks[s].sndto;
        let dl = if to > 0 { Some(self.now + to) } else { None };
        loop {
            if self.net.conns[conn].ends[0].established {
                return Ok(());
            }
            if let Some(e) = self.net.conns[conn].refused {
                return Err(e);
            }
            if self.block(Wait::Sock(s), dl) == R_TIMEOUT {
                return Err(libc::EINPROGRESS);
            }
        }
    }

    pub fn sys_sendto(&mut self, fd: i32, data: &[u8], to: Option<Addr>) -> R<usize> {
        let s = self.sock(fd)?;
        match &self.net.socks[s].kind {
            Kind::Udp { peer, .. } => {
                let connected = peer.is_some();
                let dst = to.or(*peer).ok_or(libc::EDESTADDRREQ)?;
                if let Kind::Udp { err, .. } = &mut self.net.socks[s].kind {
                    if let Some(e) = err.take() {
                        if connected {
                            return Err(e);
                        }
                    }
                }
                if self.net.socks[s].local.is_none() {
                    let port = self.ephemeral();
                    self.net.socks[s].local = Some(Addr { ip: if self.net.socks[s].v6 { V6_ANY } else { 0 }, port });
                }
                let dst = to_loopback(dst);
                let mut src = self.net.socks[s].local.unwrap();
                if is_any(src.ip) {
                    src.ip = match (is_loopback(dst.ip), is_v6(dst.ip)) {
                        (true, _) => dst.ip,
                        (false, false) => HOST_IP,
                        (false, true) => V6_HOST,
                    };
                }
                if dst.port == 0 {
                    self.net.count("sends to port 0");
                    self.fault(Kd::SendErr, FaultPeer::Udp { local: src, peer: dst });
                    return Err(libc::EINVAL);
                }
                if let Some(d) = self.slow_send.get(&dst).copied() {
                    let dl = self.now + d;
                    self.block(Wait::Sleep, Some(dl));
                }
                let v = self.choose(Kd::SendErr, 9);
                if v > 0 {
                    let e = [0, libc::ENOBUFS, libc::EAGAIN, libc::EPERM, libc::ENETUNREACH, libc::EINTR, libc::EHOSTUNREACH, libc::ENOMEM, libc::ECONNREFUSED][v as usize];
                    self.fault(Kd::SendErr, FaultPeer::Udp { local: src, peer: dst });
                    return Err(e);
                }
                if data.len() > 65507 {
                    return Err(libc::EMSGSIZE);
                }
                self.mixin(52, crate::rng::hash_bytes(dst.port as u64, data));
                self.logf(|| format!("process sends udp {} -> {} ({} bytes)", src, dst, data.len()));
                let d = data.to_vec();
                self.wire_udp(src, dst, &d);
                self.with_world(|w, k| w.udp_sent(k, src, dst, &d));
                self.net_udp(src, dst, d);
                Ok(data.len())
            }
            Kind::Stream { conn, end } => {
                let (conn, end) = (*conn, *end);
                let started = self.now;
                if data.is_empty() {
                    return Ok(0);
                }
                let v = self.choose(Kd::SendErr, 4);
                if v > 0 && v < 3 {
                    let e = [0, libc::ENOBUFS, libc::EINTR][v as usize];
                    if e != libc::EINTR {
                        self.fault(Kd::SendErr, FaultPeer::Conn(conn));
                    }
                    return Err(e);
                }
                loop {
                    let c = &self.net.conns[conn];
                    if c.ends[end].rx_rst {
                        let e = std::mem::take(&mut self.net.conns[conn].ends[end].rst_err);
                        return Err(if e != 0 { e } else { libc::EPIPE });
                    }
                    if c.ends[end].sent_fin {
                        return Err(libc::EPIPE);
                    }
                    let room = c.sndcap.saturating_sub(c.ends[end].unread_by_peer);
                    if room > 0 {
                        let mut n = room.min(data.len());
                        let v = self.choose(Kd::ShortWrite, 8);
                        if v > 0 && n > 1 {
                            // (Only so many tiny writes: long replies would take forever.)
                            self.net.short_writes += 1;
                            let v = if self.net.short_writes > 10_000 { 4 + v % 3 } else { v };
                            n = [n, 1, 2, 3, n / 2, n - 1, n / 3, 7][v as usize].clamp(1, n);
                        }
                        let d = data[..n].to_vec();
                        self.net.conns[conn].ends[end].unread_by_peer += n;
                        self.mixin(53, crate::rng::hash_bytes(conn as u64, &d));
                        self.wire_tcp(conn, end, &d);
                        self.with_world(|w, k| w.tcp_wrote(k, conn, &d));
                        if self.choose(Kd::SegSplit, 2) == 1 && n > 1 {
                            self.tcp_seg(conn, end, Seg::Data(d[..n / 2].to_vec()));
                            self.tcp_seg(conn, end, Seg::Data(d[n / 2..].to_vec()));
                        } else {
                            self.tcp_seg(conn, end, Seg::Data(d));
                        }
                        return Ok(n);
                    }
                    if self.net.socks[s].nonblock {
                        return Err(libc::EAGAIN);
                    }
                    let to = self.net.socks[s].sndto;
                    let dl = if to > 0 { Some(started + to) } else { None };
                    if dl.is_some_and(|d| d <= self.now) || self.block(Wait::Sock(s), dl) == R_TIMEOUT {
                        return Err(libc::EAGAIN);
                    }
                }
            }
            _ => Err(libc::ENOTCONN),
        }
    }

    /// recv / recvfrom / read. Returns the source address for datagrams.
    pub fn sys_recv(&mut self, fd: i32, buf: &mut [u8], peek: bool, dontwait: bool) -> R<(usize, Option<Addr>)> {
        let s = self.sock(fd)?;
        let to = self.net.socks[s].rcvto;
        let dl = if to > 0 { Some(self.now + to) } else { None };
        let v = self.choose(Kd::RecvErr, 6);
        if v > 0 {
            let net = matches!(self.net.socks[s].kind, Kind::Udp { peer: None, .. });
            let e = match v {
                2 => libc::ENOBUFS,
                // What an ICMP message leaves behind.
                3 if net => libc::ECONNREFUSED,
                4 if net => libc::EHOSTUNREACH,
                5 if net => libc::ECONNRESET,
                _ => libc::ENOMEM,
            };
            let p = self.peer_of(s);
            self.fault(Kd::RecvErr, p);
            return Err(e);
        }
        loop {
            match &mut self.net.socks[s].kind {
                Kind::Udp { q, err, .. } => {
                    if let Some(e) = err.take() {
                        return Err(e);
                    }
                    let it = if peek { q.front().cloned() } else { q.pop_front() };
                    if let Some((src, data)) = it {
                        let n = data.len().min(buf.len());
                        buf[..n].copy_from_slice(&data[..n]);
                        let at = self.net.socks[s].local.unwrap();
                        self.mixin(54, crate::rng::hash_bytes(src.port as u64, &data));
                        if !peek {
                            self.with_world(|w, k| w.udp_taken(k, at, src, &data));
                        }
                        return Ok((n, Some(src)));
                    }
                }
                Kind::Stream { conn, end } => {
                    let (conn, end) = (*conn, *end);
                    let avail = self.net.conns[conn].ends[end].rx.len();
                    if avail > 0 && !buf.is_empty() {
                        let mut n = avail.min(buf.len());
                        let v = self.choose(Kd::ShortRead, 6);
                        if v > 0 && n > 1 {
                            n = [n, 1, 2, n / 2, n - 1, 3][v as usize].clamp(1, n);
                        }
                        let e = &mut self.net.conns[conn].ends[end];
                        for (i, b) in buf.iter_mut().enumerate().take(n) {
                            *b = if peek { e.rx[i] } else { e.rx.pop_front().unwrap() };
                        }
                        if !peek {
                            let p = &mut self.net.conns[conn].ends[1 - end];
                            p.unread_by_peer = p.unread_by_peer.saturating_sub(n);
                            if let Owner::Sock(ps) = p.owner {
                                self.wake_sock(ps);
                            }
                        }
                        self.mixin(55, n as u64);
                        if !peek {
                            self.with_world(|w, k| w.tcp_took(k, conn, n));
                        }
                        return Ok((n, None));
                    }
                    let e = &self.net.conns[conn].ends[end];
                    if e.rx_fin || buf.is_empty() {
                        return Ok((0, None));
                    }
                    if e.rx_rst {
                        let e = std::mem::take(&mut self.net.conns[conn].ends[end].rst_err);
                        return if e != 0 { Err(e) } else { Ok((0, None)) };
                    }
                }
                _ => return Err(libc::ENOTCONN),
            }
            if self.net.socks[s].nonblock || dontwait {
                return Err(libc::EAGAIN);
            }
            if self.choose(Kd::Eintr, 2) == 1 {
                let p = self.peer_of(s);
                self.fault(Kd::Eintr, p);
                return Err(libc::EINTR);
            }
            if self.block(Wait::Sock(s), dl) == R_TIMEOUT {
                return Err(libc::EAGAIN);
            }
        }
    }

    pub fn sys_dup(&mut self, fd: i32) -> R<i32> {
        let s = self.sock(fd)?;
        if self.choose(Kd::DupErr, 2) == 1 {
            let p = self.peer_of(s);
            self.fault(Kd::DupErr, p);
            return Err(libc::EMFILE);
        }
        let p = self.peer_of(s);
        let nfd = self.new_fd(s, Kd::DupErr, p)?;
        self.net.socks[s].refs += 1;
        Ok(nfd)
    }

    pub fn sys_close(&mut self, fd: i32) -> R<()> {
        let s = self.sock(fd)?;
        self.net.fds[(fd - FD0) as usize] = None;
        self.net.socks[s].refs -= 1;
        if self.net.socks[s].refs == 0 {
            self.sock_gone(s);
        }
        Ok(())
    }

    fn sock_gone(&mut self, s: usize) {
        let kind = std::mem::replace(&mut self.net.socks[s].kind, Kind::New);
        match kind {
            Kind::Udp { q, .. } => {
                let at = self.net.socks[s].local.unwrap_or(Addr { ip: 0, port: 0 });
                for (src, d) in q {
                    self.with_world(|w, k| w.udp_dropped(k, at, src, &d, "closed"));
                }
            }
            Kind::Listener { q } => {
                for c in q {
                    self.net.conns[c].ends[1].owner = Owner::Gone;
                    self.tcp_seg(c, 1, Seg::Rst);
                }
            }
            Kind::Stream { conn, end } => {
                let e = &mut self.net.conns[conn].ends[end];
                e.owner = Owner::Gone;
                let rst = !e.rx.is_empty();
                let done = e.sent_fin || e.rx_rst;
                e.sent_fin = true;
                self.mixin(56, conn as u64);
                self.wire_event("close of TCP connection", conn as u64);
                self.with_world(|w, k| w.tcp_closed(k, conn));
                if rst && !self.net.conns[conn].ends[end].rx_rst {
                    self.tcp_seg(conn, end, Seg::Rst);
                } else if !done {
                    self.tcp_seg(conn, end, Seg::Fin);
                }
            }
            Kind::New => {}
        }
        self.net.socks[s].local = None;
    }

    /// Process exit: the operating system closes everything.
    pub fn close_all(&mut self) {
        for s in 0..self.net.socks.len() {
            if self.net.socks[s].refs > 0 {
                self.net.socks[s].refs = 0;
                self.sock_gone(s);
            }
        }
        self.net.fds.clear();
    }

    pub fn sys_shutdown(&mut self, fd: i32, how: i32) -> R<()> {
        let s = self.sock(fd)?;
        match self.net.socks[s].kind {
            Kind::Stream { conn, end } => {
                if how != libc::SHUT_RD && !self.net.conns[conn].ends[end].sent_fin {
                    self.net.conns[conn].ends[end].sent_fin = true;
                    self.tcp_seg(conn, end, Seg::Fin);
                }
                if how != libc::SHUT_WR {
                    self.net.conns[conn].ends[end].rx_fin = true;
                }
                Ok(())
            }
            _ => Err(libc::ENOTCONN),
        }
    }

    pub fn sys_timeout(&mut self, fd: i32, rcv: bool, ns: u64) -> R<()> {
        let s = self.sock(fd)?;
        let (dgram, local) = (self.net.socks[s].dgram, self.net.socks[s].local.unwrap_or(Addr { ip: 0, port: 0 }));
        if let Some(e) = self.with_world(|w, k| w.sockopt_errno(k, dgram, local)) {
            return Err(e);
        }
        if self.choose(Kd::OptErr, 2) == 1 {
            let p = self.peer_of(s);
            self.fault(Kd::OptErr, p);
            return Err(libc::EINVAL);
        }
        if rcv {
            self.net.socks[s].rcvto = ns;
        } else {
            self.net.socks[s].sndto = ns;
        }
        Ok(())
    }

    /// Readiness for poll().
    pub fn sock_ready(&self, fd: i32) -> (bool, bool, bool) {
        let Some(s) = self.net.sock_of(fd) else { return (false, false, true) };
        match &self.net.socks[s].kind {
            Kind::Udp { q, err, .. } => (!q.is_empty() || err.is_some(), true, err.is_some()),
            Kind::Listener { q } => (!q.is_empty(), false, false),
            Kind::Stream { conn, end } => {
                let c = &self.net.conns[*conn];
                let e = &c.ends[*end];
                let est = e.established || *end == 1;
                let room = c.sndcap > e.unread_by_peer;
                (
                    !e.rx.is_empty() || e.rx_fin || e.rx_rst || c.refused.is_some(),
                    (est && room) || e.rx_rst || c.refused.is_some(),
                    e.rx_rst || c.refused.is_some(),
                )
            }
            Kind::New => (false, false, false),
        }
    }

    /// SO_ERROR: the pending error of a socket, cleared by reading it.
    pub fn so_error(&mut self, fd: i32) -> i32 {
        let Some(s) = self.net.sock_of(fd) else { return libc::EBADF };
        match &mut self.net.socks[s].kind {
            Kind::Udp { err, .. } => err.take().unwrap_or(0),
            Kind::Stream { conn, end } => {
                let (conn, end) = (*conn, *end);
                if let Some(e) = self.net.conns[conn].refused {
                    return e;
                }
                std::mem::take(&mut self.net.conns[conn].ends[end].rst_err)
            }
            _ => 0,
        }
    }

    pub fn is_v6_sock(&self, fd: i32) -> bool {
        self.net.sock_of(fd).is_some_and(|s| self.net.socks[s].v6)
    }

    pub fn peer_addr(&self, fd: i32) -> Option<Addr> {
        let s = self.net.sock_of(fd)?;
        match &self.net.socks[s].kind {
            Kind::Udp { peer, .. } => *peer,
            Kind::Stream { conn, end } => Some(self.net.conns[*conn].ends[1 - *end].addr),
            _ => None,
        }
    }
}
