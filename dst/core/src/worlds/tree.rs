//! The name space a resolver works in: zones, their servers and their data, and what
//! every server answers (written from RFC 1034/1035).
use crate::case::*;
use crate::rng::*;
use crate::wire::*;
use std::collections::{BTreeMap, BTreeSet};

pub const ROOTS: [[u8; 4]; 13] = [
    [198, 41, 0, 4],
    [199, 9, 14, 201],
    [192, 33, 4, 12],
    [199, 7, 91, 13],
    [192, 203, 230, 10],
    [192, 5, 5, 241],
    [192, 112, 36, 4],
    [198, 97, 190, 53],
    [192, 36, 148, 17],
    [192, 58, 128, 30],
    [193, 0, 14, 129],
    [199, 7, 83, 42],
    [202, 12, 27, 33],
];

/// How a server reacts to UDP queries.
#[derive(Clone, Debug, PartialEq)]
pub enum Beh {
    Good,
    /// Ignores the first tries of every question.
    Flaky(u32),
    Silent,
    Closed,
    Code(u8),
    /// No error and no records.
    Empty,
    /// Claims non-existence without authority.
    NxNoAa,
    /// Refers to the root, or to its own zone.
    Upward,
    SelfRef,
    /// Answers too late.
    Slow,
    /// Says only false things about names of other zones.
    Liar,
    Garbage,
    WrongId,
    WrongQ,
    NoQr,
    Abyss,
}

/// How a server reacts over TCP.
#[derive(Clone, Debug, PartialEq)]
pub enum Tcp {
    Good,
    Refuse,
    Ignore,
    Close,
    Silent,
    Partial,
    Garbage,
    Truncated,
    Slow,
    /// The bytes come one by one, and far too slowly.
    Drip,
    /// A reply to something else.
    Mismatch,
}

#[derive(Clone, Debug)]
pub struct Host {
    pub name: String,
    pub ip: [u8; 4],
    pub ttl: u32,
    pub beh: Beh,
    pub tcp: Tcp,
    /// Adds records about names of other zones to its answers.
    pub evil: bool,
    pub style: u64,
    pub zones: Vec<usize>,
}
impl Host {
    pub fn bad(&self) -> bool {
        self.tcp != Tcp::Good || !matches!(self.beh, Beh::Good | Beh::Flaky(_))
    }
    pub fn st(&self, bit: u32) -> bool {
        self.style >> bit & 1 != 0
    }
}
pub const ST_COMPRESS: u32 = 0;
pub const ST_AUTH_NS: u32 = 1;
pub const ST_ADDS: u32 = 2;
pub const ST_CHAIN: u32 = 3;
pub const ST_HINTS: u32 = 4;
pub const ST_SIBLING: u32 = 5;
pub const ST_ECHO: u32 = 6;
pub const ST_TC: u32 = 7;
pub const ST_TC_EMPTY: u32 = 8;
pub const ST_SHUFFLE: u32 = 9;
pub const ST_RA: u32 = 10;
/// Its referrals also tell of zones above and below the one delegated.
pub const ST_MIX: u32 = 11;
/// Repeats the question in another case.
pub const ST_CASE: u32 = 12;
/// Its negative answers have the NS records of the zone too (RFC 2308, 2.1 type 1).
pub const ST_NEG: u32 = 13;
/// Denies aliases whose targets do not exist (RFC 2308, 2.1).
pub const ST_CHAIN_NX: u32 = 14;

#[derive(Clone, Debug)]
pub struct AZone {
    pub name: String,
    pub parent: Option<usize>,
    pub ns: Vec<usize>,
    pub ns_ttl: u32,
    pub kids: Vec<usize>,
    pub soa_ttl: u32,
}

/// A record set of one name and type, in several versions.
#[derive(Clone, Debug)]
pub struct Set {
    pub zone: usize,
    pub name: String,
    pub ty: u16,
    pub ttl: u32,
    /// Records have slightly different TTLs.
    pub spread: bool,
    pub n: u64,
    pub seed: u64,
    /// Of CNAMEs: the target of each version.
    pub targets: Vec<String>,
    pub version: u64,
    /// Its texts are not UTF-8.
    pub bin: bool,
}
impl Set {
    pub fn records(&self) -> Vec<Rr> {
        let v = self.version;
        let mut out: Vec<Rr> = vec![];
        for j in 0..self.n {
            let h = hash2(self.seed, j);
            let t = |i: u64| ["mx.corp.com.", "other.net.", "a.b.c.foo.org.", "host.bar.net.", "x."][(h >> i) as usize % 5].to_string();
            let bin = |i: u64| -> Vec<u8> {
                let n = [1, 2, 100, 127, 128, 200, 255][(hash2(h, i) >> 5) as usize % 7];
                (0..n).map(|x| if hash2(h, i) % 4 == 0 { 0xff } else { 0x80 | hash2(h, x * 7 + i) as u8 }).collect()
            };
            let data = match self.ty {
                HINFO if self.bin => Data::Hinfo(bin(v), bin(v + 1)),
                TXT if self.bin => Data::Txt((0..1 + h % 3).map(|i| bin(v + i)).collect()),
                // All of 32 bits, but none of the addresses of servers and attackers.
                A if h % 8 == 0 && j < 200 => Data::A([[0, 1, 10, 127, 192, 255][(h >> 3) as usize % 6], 255 - j as u8, v as u8, (h >> 9) as u8]),
                A => Data::A([20 + (self.seed % 40) as u8, ((self.seed >> 8) as u8).wrapping_add((j >> 8) as u8), v as u8, j as u8]),
                CNAME => Data::Name(self.targets[v as usize % self.targets.len()].clone()),
                MX => Data::Mx(((h & 0xff00) + v * 64 + j) as u16, t(3)),
                PTR => Data::Name(format!("p{}-{}.{}", v, j, t(5))),
                HINFO => Data::Hinfo(format!("cpu{}", v).into_bytes(), if h % 4 == 0 && j == 0 { vec![] } else { format!("os{}", j).into_bytes() }),
                WKS => Data::Wks([9, 9, v as u8, j as u8], [6, 17, 0, 255][(h >> 20) as usize % 4], match h % 4 {
                    0 => (0..32).map(|i| (h >> i) as u8).chain([128]).collect(),
                    1 => vec![],
                    2 => vec![0, 0, 0, 1],
                    _ => vec![1 + (h % 255) as u8, 2, 4],
                }),
                _ => {
                    let mut s = vec![format!("v{} j{}", v, j).into_bytes(), vec![b'a' + (h % 26) as u8; (h % 60) as usize]];
                    match (h >> 12) % 8 {
                        0 => s.push(vec![b'!' + (h % 80) as u8; 255]),
                        1 => s = vec![s[0].clone()],
                        2 => s.extend((0..h % 9).map(|i| vec![b'k'; i as usize])),
                        _ => {}
                    }
                    Data::Txt(s)
                }
            };
            let ttl = if self.spread { self.ttl.saturating_add((h % 7) as u32) } else { self.ttl };
            out.push(Rr::new(&self.name, self.ty, ttl, data));
        }
        out
    }
}

pub struct Tree {
    pub zones: Vec<AZone>,
    pub hosts: Vec<Host>,
    pub sets: Vec<Set>,
    pub by_ip: BTreeMap<u32, usize>,
    pub by_name: BTreeMap<String, usize>,
    /// Zones whose servers make up endless structures.
    pub abyss: Vec<usize>,
    pub probe: usize,
    pub seed: u64,
    pub abyss_kind: u64,
    /// Two zones, each of which has its only server named in the other.
    pub cross: Vec<usize>,
    by_key: BTreeMap<String, Vec<usize>>,
}

/// What the name space defines for a question.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Truth {
    Answer,
    Nx,
    NoData,
    Loop,
    /// A longer alias chain than that.
    Long,
    Unknown,
}

const L63: &str = "a23456789-123456789-123456789-123456789-123456789-123456789-123";
const LABELS: [&str; 12] = ["www", "mail", "api", "a.b", "x-1", "deep.er.still", "ftp", "w", L63, "0", "l.o.n.g.e.s.t.1.2.3.4.5.6.7.8.9.0.a.b.c.d.e.f.g.h.i.j.k", "*254"];
const SLDS: [&str; 7] = ["corp", "acorp", "foo", "bar", "b", "long-label-for-the-sake-of-size", "shop"];

pub fn ttl_of(r: &mut Rng, mode: i64) -> u32 {
    match mode {
        1 => *r.pick(&[0, 0, 1, 1, 2, 3, 5, 10]),
        2 => *r.pick(&[0, 1, 30, 3600, 86_400, 604_800, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]),
        3 => *r.pick(&[2, 3, 5, 8, 12, 20]),
        _ => *r.pick(&[60, 300, 3600, 86_400]),
    }
}

pub fn evil_ip(r: &mut Rng) -> [u8; 4] {
    [66, 6, r.below(4) as u8, r.range(1, 9) as u8]
}
pub fn spoof_ip(r: &mut Rng) -> [u8; 4] {
    [66, 7, r.below(4) as u8, r.range(1, 9) as u8]
}

impl Tree {
    pub fn generate(c: &Case) -> Tree {
        let seed = c.p("tree_seed", 1) as u64;
        let mut rr = Rng::new(hash2(seed, 0x7EE));
        let r = &mut rr;
        let mode = c.p("ttl_mode", 0);
        let mut t = Tree {
            zones: vec![],
            hosts: vec![],
            sets: vec![],
            by_ip: BTreeMap::new(),
            by_name: BTreeMap::new(),
            abyss: vec![],
            probe: 0,
            seed,
            abyss_kind: c.p("abyss_kind", 0) as u64,
            cross: vec![],
            by_key: BTreeMap::new(),
        };
        t.zones.push(AZone { name: ".".into(), parent: None, ns: vec![], ns_ttl: 518_400, kids: vec![], soa_ttl: 100 });
        for (i, ip) in ROOTS.iter().enumerate() {
            let h = t.add_host(r, &format!("{}.root-servers.net.", (b'a' + i as u8) as char), *ip, 3_600_000);
            t.zones[0].ns.push(h);
            t.hosts[h].zones.push(0);
        }
        let mut tlds = vec!["net.", "com.", "org.", "de."];
        tlds.truncate(c.p("tlds", 2).clamp(1, 4) as usize);
        for n in &tlds {
            t.add_zone(r, n, 0, mode, c);
        }
        // The zone with the names of the root servers.
        let rz = t.zones.len();
        t.zones.push(AZone { name: "root-servers.net.".into(), parent: Some(1), ns: vec![], ns_ttl: 3_600_000, kids: vec![], soa_ttl: 100 });
        t.zones[1].kids.push(rz);
        for h in 0..3 {
            t.zones[rz].ns.push(h);
            t.hosts[h].zones.push(rz);
        }
        let mut n_sld = 0;
        let mut slds: Vec<String> = SLDS.iter().flat_map(|s| tlds.iter().map(move |t| format!("{}.{}", s, t))).collect();
        r.shuffle(&mut slds);
        let mut made = vec![];
        while n_sld < c.p("slds", 4) && n_sld < slds.len() as i64 {
            let n = slds[n_sld as usize].clone();
            let p = t.zone_at(&parent(&n)).unwrap();
            made.push(t.add_zone(r, &n, p, mode, c));
            n_sld += 1;
        }
        for i in 0..c.p("subs", 2) {
            if made.is_empty() {
                break;
            }
            let p = *r.pick(&made);
            let n = format!("{}.{}", ["eu", "lab", "x.y", "sub"][i as usize % 4], t.zones[p].name);
            if t.zone_at(&n).is_none() {
                made.push(t.add_zone(r, &n, p, mode, c));
            }
        }
        if c.p("cross", 0) != 0 {
            t.cross_pair(r, &made, mode);
        }
        for i in 0..c.p("abysses", 0) {
            let p = 1 + (i as usize) % tlds.len();
            let n = format!("abyss{}.{}", i, t.zones[p].name);
            let z = t.add_zone(r, &n, p, mode, c);
            t.abyss.push(z);
            for h in t.zones[z].ns.clone() {
                if t.hosts[h].zones == [z] {
                    t.hosts[h].beh = Beh::Abyss;
                }
            }
        }
        // Data.
        let sizes = c.p("big", 5) as u64;
        for z in 1..t.zones.len() {
            if z == rz || t.abyss.contains(&z) {
                continue;
            }
            let n_names = r.below(c.p("names", 3) as u64 + 1) + (z > tlds.len()) as u64;
            let mut ls = LABELS.to_vec();
            r.shuffle(&mut ls);
            for l in ls.iter().take(n_names as usize) {
                let name = match *l {
                    // A name of the greatest length.
                    "*254" => {
                        let mut n = t.zones[z].name.clone();
                        while n.len() < 254 - 64 {
                            n = format!("{}.{}", L63, n);
                        }
                        let left = 254 - n.len();
                        if left > 1 { format!("{}.{}", &L63[..left - 1], n) } else { n }.replace("-.", "z.")
                    }
                    l => format!("{}.{}", l, t.zones[z].name),
                };
                if t.zones[z].kids.iter().any(|k| in_zone(&name, &t.zones[*k].name)) || t.by_name.contains_key(&name) {
                    continue;
                }
                if r.below(100) < c.p("aliases", 25) as u64 {
                    let ttl = ttl_of(r, mode);
                    t.sets.push(Set { zone: z, name, ty: CNAME, ttl, spread: false, n: 1, seed: r.next(), targets: vec![], version: 0, bin: false });
                    continue;
                }
                let mut tys = vec![A, A, MX, TXT, HINFO, WKS, PTR];
                r.shuffle(&mut tys);
                let k = r.range(1, 3) as usize;
                let set: BTreeSet<u16> = tys.into_iter().take(k).collect();
                for ty in set {
                    let mut n = if r.below(100) < sizes { r.range(12, 60) } else { r.range(1, 4) };
                    if n > 12 && ty == A && r.below(12) == 0 {
                        // As many as a message over TCP can have.
                        n = 58_000 / (name.len() as u64 + 16) / r.range(1, 4);
                    }
                    let (ttl, spread, seed) = (ttl_of(r, mode), r.below(6) == 0, r.next());
                    let bin = r.below(2) == 0 && c.p("bin", 0) != 0 && matches!(ty, TXT | HINFO);
                    t.sets.push(Set { zone: z, name: name.clone(), ty, ttl, spread, n, seed, targets: vec![], version: 0, bin });
                }
            }
        }
        // Long alias chains.
        let chain = c.p("chain", 0) as usize;
        if chain > 0 && !made.is_empty() {
            for i in 0..=chain {
                let z = *r.pick(&made);
                let name = format!("chain{}.{}", i, t.zones[z].name);
                let (ty, n) = if i == chain { (A, 2) } else { (CNAME, 1) };
                t.sets.push(Set { zone: z, name, ty, ttl: ttl_of(r, mode), spread: false, n, seed: r.next(), targets: vec![], version: 0, bin: false });
            }
            let names: Vec<String> = (0..=chain).map(|i| t.sets.iter().find(|s| s.name.starts_with(&format!("chain{}.", i))).unwrap().name.clone()).collect();
            for i in 0..chain {
                let s = t.sets.iter_mut().find(|s| s.name == names[i]).unwrap();
                s.targets = vec![names[i + 1].clone()];
            }
        }
        // Targets of the aliases.
        let names: Vec<String> = t.sets.iter().map(|s| s.name.clone()).collect();
        for i in 0..t.sets.len() {
            if t.sets[i].ty != CNAME || !t.sets[i].targets.is_empty() {
                continue;
            }
            for _ in 0..3 {
                let own: Vec<&String> = t.sets.iter().filter(|s| s.zone == t.sets[i].zone && s.name != t.sets[i].name).map(|s| &s.name).collect();
                let n = match r.below(12) {
                    0 => format!("nothing.{}", t.zones[r.below(t.zones.len() as u64) as usize].name.trim_start_matches('.')),
                    1..=3 if !own.is_empty() => (*r.pick(&own)).clone(),
                    4 => t.hosts[r.below(t.hosts.len() as u64) as usize].name.clone(),
                    5 if !t.abyss.is_empty() => format!("n{}.{}", r.below(9), t.zones[*r.pick(&t.abyss)].name),
                    _ => r.pick(&names).clone(),
                };
                let n = if r.below(4) == 0 { n.to_ascii_uppercase() } else { n };
                t.sets[i].targets.push(n);
            }
        }
        // A zone for capacity probes: one server, which takes its time.
        let z = t.zones.len();
        t.zones.push(AZone { name: "probe.".into(), parent: Some(0), ns: vec![], ns_ttl: 604_800, kids: vec![], soa_ttl: 0 });
        t.zones[0].kids.push(z);
        let h = t.add_host(r, "ns.probe.", [30, 255, 0, 1], 604_800);
        t.hosts[h].zones.push(z);
        t.hosts[h].style = 0;
        t.zones[z].ns.push(h);
        t.probe = z;
        t.behave(r, c);
        for (i, s) in t.sets.iter().enumerate() {
            t.by_key.entry(lower(&s.name)).or_default().push(i);
        }
        t
    }

    fn add_host(&mut self, r: &mut Rng, name: &str, ip: [u8; 4], ttl: u32) -> usize {
        let i = self.hosts.len();
        let style = r.next() & 0x3f | if r.below(10) == 0 { 1 << ST_ECHO } else { 0 } | (r.below(2) << ST_RA) | if r.below(10) == 0 { 1 << ST_MIX } else { 0 } | if r.below(14) == 0 { 1 << ST_CASE } else { 0 } | if r.below(8) == 0 { 1 << ST_NEG } else { 0 } | (r.below(2) << ST_CHAIN_NX);
        self.hosts.push(Host { name: name.to_string(), ip, ttl, beh: Beh::Good, tcp: Tcp::Good, evil: false, style, zones: vec![] });
        self.by_ip.insert(u32::from_be_bytes(ip), i);
        self.by_name.insert(lower(name), i);
        i
    }

    fn add_zone(&mut self, r: &mut Rng, name: &str, parent: usize, mode: i64, c: &Case) -> usize {
        let z = self.zones.len();
        let name = if r.below(12) == 0 { name.to_ascii_uppercase() } else { name.to_string() };
        let ns_ttl = ttl_of(r, mode);
        self.zones.push(AZone { name: name.clone(), parent: Some(parent), ns: vec![], ns_ttl, kids: vec![], soa_ttl: ttl_of(r, mode) });
        self.zones[parent].kids.push(z);
        let tld = parent == 0;
        let n = r.range(1, c.p("max_ns", 3).max(1) as u64);
        let glueless = c.p("glueless", 25) as u64;
        // Servers may be named in zones made before this one only: no circles.
        let homes: Vec<usize> = (1..z).filter(|h| self.zones[*h].parent != Some(0) && !in_zone(&self.zones[*h].name, &name) && !self.zones[*h].name.starts_with("root-servers") && !self.abyss.contains(h)).collect();
        for i in 0..n {
            let ip = [30, z as u8, i as u8, r.range(1, 200) as u8];
            let ttl = ttl_of(r, mode);
            let roll = r.below(100);
            let h = if !tld && roll < glueless && !homes.is_empty() {
                let b = *r.pick(&homes);
                let hn = format!("dns{}-{}.{}", z, i, self.zones[b].name);
                self.add_host(r, &hn, ip, ttl)
            } else if !tld && roll < glueless + 10 && z > 5 {
                // A server of another zone.
                let os: Vec<usize> = homes.iter().flat_map(|o| self.zones[*o].ns.clone()).collect();
                if os.is_empty() {
                    let hn = format!("ns{}.{}", i, name);
                    self.add_host(r, &hn, ip, ttl)
                } else {
                    *r.pick(&os)
                }
            } else if !tld && roll < glueless + 20 {
                // Named in the parent zone.
                let hn = format!("ns-{}-{}.{}", z, i, self.zones[parent].name);
                self.add_host(r, &hn, ip, ttl)
            } else {
                let hn = format!("ns{}.{}", i, name);
                self.add_host(r, &hn, ip, ttl)
            };
            if !self.zones[z].ns.contains(&h) {
                self.zones[z].ns.push(h);
                self.hosts[h].zones.push(z);
            }
        }
        z
    }

    /// Makes two zones of one parent depend on each other.
    fn cross_pair(&mut self, r: &mut Rng, made: &[usize], mode: i64) {
        let mut pairs = vec![];
        for a in made {
            for b in made {
                if a < b && self.zones[*a].parent == self.zones[*b].parent {
                    pairs.push([*a, *b]);
                }
            }
        }
        if pairs.is_empty() {
            return;
        }
        let mut p = *r.pick(&pairs);
        r.shuffle(&mut p);
        for i in 0..2 {
            let (z, of) = (p[i], p[1 - i]);
            for h in self.zones[z].ns.clone() {
                self.hosts[h].zones.retain(|x| *x != z);
            }
            let ttl = ttl_of(r, mode);
            let name = format!("cross{}.{}", i, self.zones[of].name);
            let ip = [30, z as u8, 77, r.range(1, 200) as u8];
            let h = self.add_host(r, &name, ip, ttl);
            self.hosts[h].zones.push(z);
            self.zones[z].ns = vec![h];
        }
        self.cross = p.to_vec();
    }

    /// Gives the servers their behaviours.
    fn behave(&mut self, r: &mut Rng, c: &Case) {
        let max_ns = c.p("max_ns_queried", 3) as usize;
        let retries = c.p("retries", 2) as u32;
        let bad = c.p("bad", 0) as u64;
        let strict = c.p("strict", 1) != 0;
        let kinds = c.p("bad_kinds", 0);
        let mut order: Vec<usize> = (0..self.hosts.len()).collect();
        r.shuffle(&mut order);
        for h in order {
            if self.hosts[h].beh != Beh::Good || self.hosts[h].zones.contains(&self.probe) {
                continue;
            }
            if r.below(100) < c.p("flaky", 0) as u64 && retries > 1 {
                self.hosts[h].beh = Beh::Flaky(r.range(1, retries as u64 - 1) as u32);
            }
            if r.below(100) < c.p("tc", 0) as u64 {
                self.hosts[h].style |= 1 << ST_TC | r.below(2) << ST_TC_EMPTY;
            }
            if c.p("shuffle", 0) != 0 {
                self.hosts[h].style |= 1 << ST_SHUFFLE;
            }
            if h >= 13 && r.below(100) < c.p("evil", 0) as u64 {
                self.hosts[h].evil = true;
            }
            if r.below(100) >= bad {
                continue;
            }
            let old = self.hosts[h].clone();
            match kinds {
                1 => self.hosts[h].beh = Beh::Garbage,
                3 => self.hosts[h].beh = Beh::Liar,
                4 => {
                    let h = &mut self.hosts[h];
                    match r.below(5) {
                        0 => h.beh = Beh::Silent,
                        1 => (h.tcp, h.style) = (Tcp::Drip, h.style | 1 << ST_TC),
                        _ => (h.tcp, h.style) = (Tcp::Mismatch, h.style | 1 << ST_TC | r.below(2) << ST_TC_EMPTY),
                    }
                }
                5 => self.hosts[h].beh = r.pick(&[Beh::Closed, Beh::Code(2), Beh::Code(5), Beh::Empty, Beh::SelfRef, Beh::NxNoAa]).clone(),
                2 => self.hosts[h].beh = r.pick(&[Beh::Silent, Beh::Silent, Beh::Closed, Beh::Slow]).clone(),
                _ => match r.below(20) {
                    0..=3 => self.hosts[h].beh = Beh::Silent,
                    4 => self.hosts[h].beh = Beh::Closed,
                    5..=7 => self.hosts[h].beh = Beh::Code(*r.pick(&[1, 2, 2, 4, 5, 5])),
                    8 => self.hosts[h].beh = Beh::Empty,
                    9 => self.hosts[h].beh = Beh::NxNoAa,
                    10 => self.hosts[h].beh = Beh::Upward,
                    11 => self.hosts[h].beh = Beh::SelfRef,
                    12 => self.hosts[h].beh = Beh::Slow,
                    13 => self.hosts[h].beh = Beh::Garbage,
                    14 => self.hosts[h].beh = Beh::WrongId,
                    15 => self.hosts[h].beh = r.pick(&[Beh::WrongQ, Beh::NoQr]).clone(),
                    _ => self.hosts[h].tcp = r.pick(&[Tcp::Refuse, Tcp::Ignore, Tcp::Close, Tcp::Silent, Tcp::Partial, Tcp::Garbage, Tcp::Truncated, Tcp::Slow, Tcp::Drip, Tcp::Mismatch]).clone(),
                },
            }
            if strict && self.hosts[h].zones.clone().iter().any(|z| self.too_bad(*z, max_ns)) {
                self.hosts[h] = old;
            }
        }
    }

    pub fn too_bad(&self, z: usize, max_ns: usize) -> bool {
        let ns = &self.zones[z].ns;
        let n = if z == 0 { 13 } else { ns.len() };
        ns.iter().filter(|h| self.hosts[**h].bad()).count() >= n.min(max_ns)
    }
    /// Can every zone be reached despite the bad servers?
    pub fn all_reachable(&self, max_ns: usize) -> bool {
        (0..self.zones.len()).all(|z| self.abyss.contains(&z) || !self.too_bad(z, max_ns))
    }
    pub fn cure(&mut self) {
        for h in self.hosts.iter_mut() {
            if h.beh != Beh::Abyss {
                h.beh = Beh::Good;
            }
            h.tcp = Tcp::Good;
        }
    }

    pub fn zone_at(&self, n: &str) -> Option<usize> {
        self.zones.iter().position(|z| lower(&z.name) == lower(n))
    }
    /// The zone a name belongs to.
    pub fn zone_of(&self, n: &str) -> usize {
        (0..self.zones.len()).filter(|z| in_zone(n, &self.zones[*z].name)).max_by_key(|z| labels(&self.zones[*z].name)).unwrap_or(0)
    }
    pub fn in_abyss(&self, n: &str) -> bool {
        self.abyss.iter().any(|z| in_zone(n, &self.zones[*z].name))
    }

    fn soa(&self, z: usize) -> Rr {
        let n = &self.zones[z].name;
        let t = n.trim_start_matches('.');
        let v = |i: u64| match hash2(hash_bytes(i, n.as_bytes()), self.zones[z].soa_ttl as u64) {
            x if x % 3 == 0 => (x >> 8) as u32,
            x => [0, 1, 60, 600, 3600, 86_400, u32::MAX, 1 << 31][(x >> 8) as usize % 8],
        };
        Rr::new(n, SOA, self.zones[z].soa_ttl, Data::Soa(format!("ns0.{}", t), format!("hostmaster.{}", t), [v(1), v(2), v(3), v(4), v(5)]))
    }
    fn ns(&self, z: usize) -> Vec<Rr> {
        self.zones[z].ns.iter().map(|h| Rr::ns(&self.zones[z].name, self.zones[z].ns_ttl, &self.hosts[*h].name)).collect()
    }
    fn a(&self, h: usize) -> Rr {
        Rr::a(&self.hosts[h].name, self.hosts[h].ttl, self.hosts[h].ip)
    }

    /// All records of a name of a zone (of authoritative data).
    fn data(&self, z: usize, name: &str) -> Vec<Rr> {
        let mut v = vec![];
        if lower(name) == lower(&self.zones[z].name) {
            v.push(self.soa(z));
            v.extend(self.ns(z));
        }
        if let Some(h) = self.by_name.get(&lower(name)) {
            v.push(self.a(*h));
        }
        for s in self.by_key.get(&lower(name)).into_iter().flatten() {
            if self.sets[*s].zone == z {
                v.extend(self.sets[*s].records());
            }
        }
        if z == self.probe && labels(name) == 2 && !self.by_name.contains_key(&lower(name)) {
            v.push(Rr::a(name, if name.starts_with("warm") { 600 } else { 0 }, [20, 20, 20, 20]));
        }
        v
    }
    /// Is there anything at or below the name?
    fn exists(&self, z: usize, name: &str) -> bool {
        lower(name) == lower(&self.zones[z].name)
            || !self.data(z, name).is_empty()
            || self.sets.iter().any(|s| in_zone(&s.name, name))
            || self.by_name.keys().any(|n| in_zone(n, name))
            || self.zones.iter().any(|k| in_zone(&k.name, name))
    }

    /// What the name space says, over all versions of the data.
    pub fn truth(&self, name: &str, ty: u16, max_chain: usize, limit: usize) -> BTreeSet<Truth> {
        let mut out = BTreeSet::new();
        self.truth_in(name, ty, 0, max_chain, limit, &mut vec![], &mut out);
        out
    }
    fn truth_in(&self, name: &str, ty: u16, depth: usize, max: usize, limit: usize, seen: &mut Vec<String>, out: &mut BTreeSet<Truth>) {
        if out.len() > 3 {
            return;
        }
        let ln = lower(name);
        if self.in_abyss(&ln) {
            out.insert(Truth::Unknown);
            return;
        }
        if seen.contains(&ln) {
            out.insert(Truth::Loop);
            return;
        }
        if depth > limit {
            out.insert(Truth::Long);
            return;
        }
        let z = self.zone_of(&ln);
        let d = self.data(z, &ln);
        if d.iter().any(|x| x.ty == ty) {
            let bin = self.by_key.get(&ln).into_iter().flatten().any(|s| self.sets[*s].bin && self.sets[*s].ty == ty);
            out.insert(match depth {
                _ if bin => Truth::Unknown,
                d if d >= limit => Truth::Long,
                d if d >= max => Truth::Unknown,
                _ => Truth::Answer,
            });
            return;
        }
        if d.iter().any(|x| x.ty == CNAME) {
            let i = *self.by_key[&ln].iter().find(|i| self.sets[**i].ty == CNAME).unwrap();
            seen.push(ln);
            for t in self.sets[i].targets.clone() {
                self.truth_in(&t, ty, depth + 1, max, limit, seen, out);
            }
            seen.pop();
            return;
        }
        out.insert(match (self.exists(z, &ln), depth >= max) {
            (_, true) => Truth::Unknown,
            (true, _) => Truth::NoData,
            (false, _) => Truth::Nx,
        });
    }

    fn referral(&self, m: &mut Msg, of: usize, child: usize, h: usize) {
        m.ns = self.ns(child);
        for s in &self.zones[child].ns {
            let n = &self.hosts[*s].name;
            let own = in_zone(n, &self.zones[child].name);
            if own || self.cross.contains(&child) || (in_zone(n, &self.zones[of].name) && self.hosts[h].st(ST_SIBLING)) {
                m.ar.push(self.a(*s));
            }
        }
    }

    /// True NS records of the zone itself, and of the one below the delegated one.
    fn more_referrals(&self, m: &mut Msg, z: usize, k: usize, name: &str) {
        let kk = self.zones[k].kids.iter().copied().find(|k| in_zone(name, &self.zones[*k].name));
        let mut more = vec![];
        for z in [Some(z), kk].into_iter().flatten() {
            more.extend(self.ns(z));
            for s in self.zones[z].ns.iter().filter(|s| self.cross.contains(&z) || in_zone(&self.hosts[**s].name, &self.zones[z].name)) {
                let a = self.a(*s);
                if !m.ar.contains(&a) {
                    m.ar.push(a);
                }
            }
        }
        let at = name.len() * 7 % (m.ns.len() + 1);
        m.ns.splice(at..at, more);
    }

    /// The complete reply of server `h`.
    pub fn answer(&self, h: usize, q: &Msg) -> Msg {
        let host = &self.hosts[h];
        let mut m = q.reply_to();
        m.h.rd = q.h.rd;
        m.h.ra = host.st(ST_RA);
        let Some(qu) = q.q.first() else {
            m.h.rcode = 1;
            return m;
        };
        let Some(z) = host.zones.iter().copied().filter(|z| in_zone(&qu.name, &self.zones[*z].name)).max_by_key(|z| labels(&self.zones[*z].name)) else {
            m.h.rcode = 5;
            return m;
        };
        let mut name = qu.name.clone();
        for depth in 0..12 {
            if let Some(k) = self.zones[z].kids.iter().copied().find(|k| in_zone(&name, &self.zones[*k].name)) {
                if depth == 0 {
                    self.referral(&mut m, z, k, h);
                    if host.st(ST_MIX) {
                        self.more_referrals(&mut m, z, k, &name);
                    }
                } else if host.st(ST_HINTS) {
                    self.referral(&mut m, z, k, h);
                }
                return m;
            }
            if depth == 0 {
                m.h.aa = true;
            }
            if !in_zone(&name, &self.zones[z].name) {
                return m;
            }
            let d = self.data(z, &name);
            let mut hit: Vec<Rr> = d.iter().filter(|x| x.ty == qu.ty).cloned().collect();
            if host.st(ST_ECHO) {
                hit.iter_mut().for_each(|x| x.name = name.clone());
            }
            if !hit.is_empty() {
                m.an.extend(hit);
                if host.st(ST_AUTH_NS) {
                    m.ns = self.ns(z);
                    if host.st(ST_ADDS) {
                        for s in &self.zones[z].ns {
                            m.ar.push(self.a(*s));
                        }
                    }
                }
                return m;
            }
            if let Some(c) = d.iter().find(|x| x.ty == CNAME) {
                let mut c = c.clone();
                if host.st(ST_ECHO) {
                    c.name = name.clone();
                }
                name = c.target().unwrap().to_string();
                m.an.push(c);
                if !host.st(ST_CHAIN) {
                    if host.st(ST_HINTS) && in_zone(&name, &self.zones[z].name) {
                        match self.zones[z].kids.iter().copied().find(|k| in_zone(&name, &self.zones[*k].name)) {
                            Some(k) => self.referral(&mut m, z, k, h),
                            None => {
                                m.ns = self.ns(z);
                                for s in &self.zones[z].ns {
                                    if host.st(ST_ADDS) {
                                        m.ar.push(self.a(*s));
                                    }
                                }
                            }
                        }
                    }
                    return m;
                }
                continue;
            }
            if depth == 0 || host.st(ST_CHAIN_NX) {
                m.ns.push(self.soa(z));
                if host.st(ST_NEG) {
                    let at = name.len() % 2;
                    m.ns.splice(at..at, self.ns(z));
                }
                if !self.exists(z, &name) {
                    m.h.rcode = 3;
                }
            }
            return m;
        }
        m
    }

    /// Records about names that are none of the server's business, all of them false.
    pub fn poison(&self, r: &mut Rng, h: usize, m: &mut Msg) {
        let liar = self.hosts[h].beh == Beh::Liar;
        let mine: Vec<&AZone> = self.hosts[h].zones.iter().map(|z| &self.zones[*z]).collect();
        let others: Vec<usize> = (0..self.zones.len()).filter(|z| !mine.iter().any(|m| in_zone(&self.zones[*z].name, &m.name)) && *z != self.probe && *z != 0).collect();
        if others.is_empty() {
            return;
        }
        let q = m.q[0].clone();
        let target = m.an.iter().rev().find(|x| x.ty == CNAME).and_then(|x| x.target()).map(|s| s.to_string());
        for _ in 0..r.range(1, 3) {
            let mut v = &self.zones[*r.pick(&others)];
            if let Some(t) = &target {
                let z = self.zone_of(t);
                if others.contains(&z) {
                    v = &self.zones[z];
                }
            }
            let victim = match r.below(4) {
                0 => v.name.clone(),
                1 => {
                    let names: Vec<&String> = self.sets.iter().filter(|s| self.zones[s.zone].name == v.name).map(|s| &s.name).collect();
                    if names.is_empty() { v.name.clone() } else { r.pick(&names).to_string() }
                }
                2 => target.clone().unwrap_or(v.name.clone()),
                _ => v.ns.first().map(|h| self.hosts[*h].name.clone()).unwrap_or(v.name.clone()),
            };
            if mine.iter().any(|z| in_zone(&victim, &z.name)) {
                continue;
            }
            let ip = evil_ip(r);
            let ttl = *r.pick(&[0, 60, 86_400]);
            match if liar { r.below(8) } else { r.below(6) } {
                5 | 6 => {
                    let own = format!("evil{}.{}", r.below(3), mine[0].name.trim_start_matches('.'));
                    let own = if own.ends_with('.') { own } else { "evil.net.".to_string() };
                    m.an.insert(r.below(m.an.len() as u64 + 1) as usize, Rr::cname(&victim, ttl, &own));
                }
                7 => {
                    let qt = q.ty;
                    let d = match qt {
                        NS | CNAME => Data::Name(format!("evil.{}", victim.trim_start_matches('.'))),
                        A => Data::A(ip),
                        _ => continue,
                    };
                    m.an.push(Rr::new(&victim, qt, ttl, d));
                }
                0 => m.ar.push(Rr::a(&victim, ttl, ip)),
                1 => m.an.push(Rr::a(&victim, ttl, ip)),
                2 | 3 => {
                    // A false delegation of another zone, or of one above.
                    let zn = match r.below(4) {
                        0 => parent(&mine[0].name),
                        _ => v.name.clone(),
                    };
                    if mine.iter().any(|z| in_zone(&zn, &z.name)) {
                        continue;
                    }
                    let hn = match r.below(3) {
                        0 => format!("evil{}.{}", r.below(3), zn.trim_start_matches('.')),
                        1 if !v.ns.is_empty() => self.hosts[*r.pick(&v.ns)].name.clone(),
                        _ => format!("evil.{}", mine[0].name),
                    };
                    let hn = if hn.ends_with('.') && hn.len() > 1 { hn } else { "evil.net.".to_string() };
                    m.ns.insert(r.below(m.ns.len() as u64 + 1) as usize, Rr::ns(&zn, ttl, &hn));
                    if hn.contains("evil") || !mine.iter().any(|z| in_zone(&hn, &z.name)) {
                        m.ar.push(Rr::a(&hn, ttl, ip));
                    }
                }
                _ => {
                    // False addresses of real servers of other zones.
                    if let Some(h2) = v.ns.first() {
                        let n = self.hosts[*h2].name.clone();
                        if !mine.iter().any(|z| in_zone(&n, &z.name)) {
                            m.ar.insert(0, Rr::a(&n, ttl, ip));
                        }
                    }
                }
            }
        }
        let _ = q;
    }

    /// The reply of a server of an endless structure; none: no reply.
    pub fn abyss_answer(&self, h: usize, q: &Msg) -> Option<Msg> {
        let mut m = q.reply_to();
        let qu = q.q.first()?.clone();
        let Some(z) = self.hosts[h].zones.iter().copied().find(|z| in_zone(&qu.name, &self.zones[*z].name)) else {
            m.h.rcode = 5;
            return Some(m);
        };
        let ln = lower(&qu.name);
        let mut rr = Rng::new(hash2(self.seed, hash_bytes(qu.ty as u64 ^ (q.h.id as u64 & 3), ln.as_bytes())));
        let r = &mut rr;
        let zn = &self.zones[z].name;
        let own = &self.hosts[h];
        if self.by_name.contains_key(&ln) {
            if qu.ty == A {
                m.h.aa = true;
                m.an.push(self.a(self.by_name[&ln]));
            }
            return Some(m);
        }
        let some = |r: &mut Rng| {
            let z = &self.zones[*r.pick(&self.abyss)].name;
            let top = if r.below(4) == 0 { 30 } else { 3 };
            let n = r.range(1, top);
            let l: Vec<String> = (0..n).map(|_| format!("{}{}", (b'a' + r.below(26) as u8) as char, r.below(1000))).collect();
            let s = format!("{}.{}", l.join("."), z);
            if s.len() > 240 { format!("n{}.{}", r.below(100_000), z) } else { s }
        };
        let what = match self.abyss_kind {
            1 => 0,
            2 => 1,
            3 => 2,
            4 => *r.pick(&[0, 1]),
            5 => 3,
            _ => r.below(9),
        };
        match what {
            // A deeper zone with many servers, their addresses not known.
            0 | 2 | 3 => {
                let ls: Vec<&str> = qu.name.split('.').filter(|l| !l.is_empty()).collect();
                let zl = labels(zn);
                let below = ls.len() - zl.min(ls.len());
                if below == 0 {
                    m.h.rcode = 2;
                    return Some(m);
                }
                let n = match what {
                    0 => *r.pick(&[1, 3, 13]),
                    2 => 1,
                    _ => *r.pick(&[1, 2, 5]),
                };
                // One label deeper each time: the ID serves as a coin.
                let k = if what == 3 { 1 + (q.h.id as usize % below) } else { r.range(1, below as u64) as usize };
                let child = format!("{}.", ls[ls.len() - zl - k..].join("."));
                for i in 0..n {
                    let glue = what == 3;
                    let t = if glue { format!("g{}.{}", i, child) } else { some(r) };
                    if t.len() > 250 {
                        continue;
                    }
                    m.ns.push(Rr::ns(&child, *r.pick(&[0, 60]), &t));
                    if glue {
                        m.ar.push(Rr::a(&t, 0, own.ip));
                    }
                }
            }
            1 => {
                m.h.aa = true;
                m.an.push(Rr::cname(&qu.name, 0, &some(r)));
                if r.below(2) == 0 {
                    m.ns.push(Rr::ns(zn, 60, &own.name));
                    m.ar.push(Rr::a(&own.name, 60, own.ip));
                }
            }
            4 => {
                m.h.aa = true;
                m.h.rcode = 3;
            }
            5 => return None,
            6 => m.h.rcode = 2,
            _ => {
                if qu.ty == A {
                    m.h.aa = true;
                    let ip = if r.below(2) == 0 { own.ip } else { [31, 1, 1, r.range(1, 250) as u8] };
                    m.an.push(Rr::a(&qu.name, *r.pick(&[0, 5, 600]), ip));
                }
            }
        }
        Some(m)
    }

    /// A question about the name space or near it.
    pub fn ask(&self, r: &mut Rng, c: &Case) -> (String, u16) {
        let ty = *r.pick(&[A, A, A, A, MX, TXT, NS, SOA, CNAME, PTR, HINFO, WKS]);
        let zs: Vec<usize> = (1..self.zones.len()).filter(|z| *z != self.probe && !self.abyss.contains(z)).collect();
        let roll = r.below(100);
        if !self.abyss.is_empty() && roll < c.p("ask_abyss", 60) as u64 {
            let z = &self.zones[*r.pick(&self.abyss)].name;
            let n = *r.pick(&[1, 2, 3, 10, 40]);
            let l: Vec<String> = (0..n).map(|i| if n > 10 { "a".to_string() } else { format!("q{}x{}", i, r.below(50)) }).collect();
            return (format!("{}.{}", l.join("."), z), ty);
        }
        let n = match r.below(24) {
            0 => format!("nope.{}", self.zones[*r.pick(&zs)].name),
            1 => format!("x{}", self.zones[*r.pick(&zs)].name),
            2 => self.zones[*r.pick(&zs)].name.clone(),
            3 => self.hosts[r.below(self.hosts.len() as u64 - 1) as usize].name.clone(),
            4 => ".".to_string(),
            5 => format!("no.{}.", ["such", "org", "zz"][r.below(3) as usize]),
            6 => "b.".to_string(),
            7 | 8 if c.p("chain", 0) > 0 => {
                let i = r.below(3);
                self.sets.iter().find(|s| s.name.starts_with(&format!("chain{}.", i))).map(|s| s.name.clone()).unwrap_or(".".into())
            }
            _ => {
                if self.sets.is_empty() {
                    self.zones[*r.pick(&zs)].name.clone()
                } else {
                    let s = r.pick(&self.sets);
                    let n = super::zone::rnd_case(r, &s.name);
                    return (n, if s.ty == CNAME { ty } else if r.below(6) > 0 { s.ty } else { ty });
                }
            }
        };
        (super::zone::rnd_case(r, &n), ty)
    }
}
