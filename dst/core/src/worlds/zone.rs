//! Random zones: the model (what the files define) and the files that define it.
use crate::rng::*;
use crate::wire::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Sub {
    pub name: String,
    pub ns: Vec<Rr>,
    pub glue: Vec<Rr>,
    pub file: String,
    pub starting_ttl: u32,
    pub min_ttl: u32,
}

#[derive(Clone, Debug)]
pub struct Zone {
    pub top: String,
    pub soa: Rr,
    /// In file order (the SOA not included).
    pub recs: Vec<Rr>,
    pub subs: Vec<Sub>,
    pub starting_ttl: u32,
    pub files: BTreeMap<String, Vec<u8>>,
    /// The zone member of the configuration file.
    pub conf: Value,
}

#[derive(Clone, Debug)]
pub struct Answer {
    pub rcodes: Vec<u8>,
    pub aa: bool,
    pub an: Vec<Rr>,
    pub ns: Vec<Rr>,
    pub ar: Vec<Rr>,
}

impl Zone {
    /// What the zone defines as the reply to a question.
    pub fn answer(&self, name: &str, ty: u16) -> Option<Answer> {
        if !in_zone(name, &self.top) {
            return None;
        }
        for s in &self.subs {
            if in_zone(name, &s.name) {
                let mut ar = vec![];
                for n in &s.ns {
                    let t = n.target().unwrap();
                    for s2 in &self.subs {
                        if in_zone(t, &s2.name) {
                            ar.extend(s2.glue.iter().filter(|g| lower(&g.name) == lower(t)).cloned());
                        }
                    }
                }
                return Some(Answer { rcodes: vec![0], aa: false, an: vec![], ns: s.ns.clone(), ar });
            }
        }
        let ln = lower(name);
        let all: Vec<&Rr> = self.recs.iter().chain(std::iter::once(&self.soa)).filter(|r| lower(&r.name) == ln).collect();
        let mut an: Vec<Rr> = all.iter().filter(|r| r.ty == ty).map(|r| (*r).clone()).collect();
        if an.is_empty() {
            an = all.iter().filter(|r| r.ty == CNAME).map(|r| (*r).clone()).collect();
        }
        if !an.is_empty() {
            return Some(Answer { rcodes: vec![0], aa: true, an, ns: vec![], ar: vec![] });
        }
        // Whether a name that exists with other types only is denied as NxDomain or as
        // an empty NoError answer is not part of the property.
        let exists = self.recs.iter().any(|r| in_zone(&r.name, name)) || self.subs.iter().any(|s| in_zone(&s.name, name));
        Some(Answer { rcodes: if exists { vec![3, 0] } else { vec![3] }, aa: true, an: vec![], ns: vec![self.soa.clone()], ar: vec![] })
    }
    pub fn names(&self) -> Vec<String> {
        let mut v: Vec<String> = self.recs.iter().map(|r| lower(&r.name)).collect();
        v.sort();
        v.dedup();
        v
    }
}

pub fn rnd_case(r: &mut Rng, n: &str) -> String {
    match r.below(4) {
        0 => n.to_ascii_uppercase(),
        1 => n.chars().map(|c| if r.below(2) == 0 { c.to_ascii_uppercase() } else { c }).collect(),
        _ => n.to_string(),
    }
}

pub fn rnd_label(r: &mut Rng, max: u64) -> String {
    let n = match r.below(12) {
        0 => max,
        1 => r.range(1, max),
        _ => r.range(1, 9.min(max)),
    };
    let al = b"abcdefghijklmnopqrstuvwxyz";
    let all = b"abcdefghijklmnopqrstuvwxyz0123456789-";
    let mut s = String::new();
    for i in 0..n {
        let c = if i == 0 {
            *r.pick(al)
        } else if i == n - 1 {
            *r.pick(&all[..36])
        } else {
            *r.pick(all)
        };
        s.push(c as char);
    }
    s
}

/// The name with more labels in front, up to the length that a name may have.
pub fn stretch(r: &mut Rng, n: &str) -> String {
    let to = *r.pick(&[100, 200, 240, 253, 254]);
    let mut n = n.to_string();
    while n.len() + 2 <= to {
        let max = (to - n.len() - 1).min(63);
        // No single byte may be left over.
        let l = if max + 2 == to - n.len() { max - 1 } else { r.range(1.max(max as u64 / 3), max as u64) as usize };
        let l: String = (0..l.max(1)).map(|_| *r.pick(b"abcdefghij") as char).collect();
        n = format!("{}.{}", l, n);
    }
    n
}

pub struct ZoneOpts {
    pub names: u64,
    /// Probability (of 100) of a record set that exceeds what UDP can carry.
    pub big: u64,
    pub mixed_case: bool,
    pub includes: bool,
    pub max_subs: u64,
}

fn rnd_text(r: &mut Rng, max: u64) -> Vec<u8> {
    let n = r.below(max + 1);
    (0..n).map(|_| *r.pick(b"abcdefgh XYZ0123456789-_=;,.()@$'\"\\")).collect()
}

pub fn generate(seed: u64, o: &ZoneOpts) -> Zone {
    let mut r = Rng::new(hash2(seed, 0x20E));
    let r = &mut r;
    let top = match r.below(5) {
        0 => "com.".to_string(),
        1 => format!("{}.{}.", rnd_label(r, 12), rnd_label(r, 3)),
        2 => format!("{}.{}.{}.", rnd_label(r, 20), rnd_label(r, 9), rnd_label(r, 3)),
        _ => "example.com.".to_string(),
    };
    let minimum = *r.pick(&[0u32, 60, 300]);
    let ttl = |r: &mut Rng| -> u32 { *r.pick(&[minimum.max(1), 300, 301, 3600, 86_400, 2_147_483_647]) };
    let starting_ttl = ttl(r).max(minimum);
    let any = |r: &mut Rng| -> u32 { if r.below(2) == 0 { r.below(1 << 32) as u32 } else { *r.pick(&[0, 1, 600, 86_400, u32::MAX, 1 << 31]) } };
    let times = [any(r), any(r), any(r), any(r), minimum];
    let soa = Rr {
        name: top.clone(),
        ty: SOA,
        class: 1,
        ttl: ttl(r),
        data: Data::Soa(format!("ns.{}", top), format!("mail.{}", top), times),
    };
    let mut names = vec![top.clone()];
    let mut used: Vec<String> = vec![];
    for _ in 0..o.names {
        // Siblings whose names end alike (but on other label boundaries) are of interest.
        let base = if r.below(4) == 0 { r.pick(&names).clone() } else { top.clone() };
        let l = match r.below(8) {
            0 => "www".to_string(),
            1 => "a".to_string(),
            2 if labels(&top) > 0 => format!("x{}", top.split('.').next().unwrap()),
            _ => rnd_label(r, 63),
        };
        let n = format!("{}.{}", l, base);
        let n = if r.below(12) == 0 { stretch(r, &n) } else { n };
        if n.len() < 255 && !used.contains(&n) {
            used.push(n.clone());
            names.push(n);
        }
    }
    // Delegated sub zones.
    let mut subs: Vec<Sub> = vec![];
    let nsubs = r.below(o.max_subs + 1);
    for i in 0..nsubs {
        let deeper = if r.below(4) == 0 { format!("{}.", rnd_label(r, 20)) } else { String::new() };
        let n = format!("{}{}.{}{}", ["sub", "b", "deleg", "z"][r.below(4) as usize], i, deeper, top);
        let n = if subs.iter().any(|s| in_zone(&n, &s.name) || in_zone(&s.name, &n)) { format!("zz{}.{}", i, top) } else { n };
        subs.push(Sub { name: n, ns: vec![], glue: vec![], file: format!("/sim/sub{}", i), starting_ttl: 0, min_ttl: 0 });
    }
    names.retain(|n| !subs.iter().any(|s| in_zone(n, &s.name)));
    let mut recs: Vec<Rr> = vec![];
    for i in 0..r.range(1, 3) {
        let t = match r.below(3) {
            0 => format!("ns{}.{}", i, top),
            1 => format!("ns{}.other.net.", i),
            _ => names[r.below(names.len() as u64) as usize].clone(),
        };
        let rr = Rr::ns(&top, ttl(r), &t);
        if !recs.iter().any(|x| x.key() == rr.key()) {
            recs.push(rr);
        }
    }
    let ip = |r: &mut Rng| -> [u8; 4] { [r.range(1, 223) as u8, r.below(256) as u8, r.below(256) as u8, r.range(1, 254) as u8] };
    let target = |r: &mut Rng, names: &Vec<String>| -> String {
        if r.below(3) == 0 {
            format!("{}.{}.", rnd_label(r, 30), rnd_label(r, 10))
        } else {
            r.pick(names).clone()
        }
    };
    for n in names.clone() {
        if n != top && r.below(6) == 0 {
            recs.push(Rr::cname(&n, ttl(r), &target(r, &names)));
            continue;
        }
        for ty in [A, WKS, PTR, HINFO, MX, TXT] {
            if r.below(100) >= if ty == A { 70 } else { 18 } {
                continue;
            }
            let mut cnt = r.range(1, 3);
            let big = r.below(100) < o.big;
            if big {
                cnt = match r.below(10) {
                    0 if ty == TXT => 270,
                    0 => 60,
                    1..=4 => r.range(3, 12),
                    _ => r.range(10, 40),
                };
            }
            // Records of a set have equal or different TTLs.
            let t0 = ttl(r);
            let mut bytes = 0;
            for _ in 0..cnt {
                let t = if r.below(4) == 0 { ttl(r) } else { t0 };
                let data = match ty {
                    A => Data::A(ip(r)),
                    WKS => Data::Wks(ip(r), *r.pick(&[6u8, 17]), vec![]),
                    PTR => Data::Name(target(r, &names)),
                    HINFO => Data::Hinfo(rnd_text(r, 20), rnd_text(r, 20)),
                    MX => Data::Mx(r.below(65_536) as u16, target(r, &names)),
                    _ => {
                        let k = r.range(1, 3);
                        Data::Txt((0..k).map(|_| { let m = if big && r.below(2) == 0 { 255 } else { 40 }; rnd_text(r, m) }).collect())
                    }
                };
                let rr = Rr { name: n.clone(), ty, class: 1, ttl: t, data };
                // A reply cannot be longer than 65535 bytes.
                let mut b = vec![];
                put_rr(&mut b, &rr, &mut None);
                bytes += b.len();
                if bytes < 60_000 && !recs.iter().any(|x| x.key() == rr.key()) {
                    recs.push(rr);
                }
            }
        }
    }
    // A reply that ends near (or far beyond) the limit of UDP or TCP.
    if o.big >= 30 && r.below(3) == 0 {
        let n = names[r.below(names.len() as u64) as usize].clone();
        if !recs.iter().any(|x| x.name == n && x.ty == CNAME) {
            recs.retain(|x| x.name != n || x.ty != TXT);
            let t = ttl(r);
            recs.extend(sized_set(r, &n, t));
        }
    }
    // Other record order than grouped by name; a record set may be interleaved with others.
    if r.below(2) == 0 {
        let mut tail = recs.split_off(1);
        r.shuffle(&mut tail);
        recs.extend(tail);
    }
    // Sub zones: every server named inside any sub zone gets glue somewhere.
    let sub_names: Vec<String> = subs.iter().map(|s| s.name.clone()).collect();
    for i in 0..subs.len() {
        let many = r.below(100) < o.big;
        let k = if many { r.range(8, 20) } else { r.range(1, 3) };
        subs[i].min_ttl = *r.pick(&[0u32, 60]);
        subs[i].starting_ttl = ttl(r).max(subs[i].min_ttl);
        for j in 0..k {
            let z = if r.below(4) == 0 { r.pick(&sub_names).clone() } else { sub_names[i].clone() };
            let t = match r.below(5) {
                0 => format!("ns{}.elsewhere.org.", j),
                1 => z.clone(),
                _ => format!("ns{}.{}", j, z),
            };
            let t = if r.below(8) == 0 && !sub_names.iter().any(|s| in_zone(&format!("ns.{}", top), s)) { format!("ns.{}", top) } else { t };
            let rr = Rr::ns(&sub_names[i], ttl(r).max(subs[i].min_ttl), &t);
            if !subs[i].ns.iter().any(|x| x.key() == rr.key()) {
                subs[i].ns.push(rr);
            }
            for q in 0..subs.len() {
                if in_zone(&t, &sub_names[q]) && !subs[q].glue.iter().any(|g| lower(&g.name) == lower(&t)) {
                    let m = subs[q].min_ttl;
                    for _ in 0..r.range(1, 2) {
                        let g = Rr::a(&t, ttl(r).max(m), ip(r));
                        subs[q].glue.push(g);
                    }
                }
            }
        }
    }
    for s in subs.iter_mut() {
        s.glue.iter_mut().for_each(|g| g.ttl = g.ttl.max(60));
        s.ns.iter_mut().for_each(|g| g.ttl = g.ttl.max(60));
        s.starting_ttl = s.starting_ttl.max(60);
    }
    let mut z = Zone { top: top.clone(), soa, recs, subs, starting_ttl, files: BTreeMap::new(), conf: json!(null) };
    render(&mut z, r, o);
    z
}

/// Texts of one name whose (uncompressed) reply has about as many bytes as fit.
fn sized_set(r: &mut Rng, n: &str, ttl: u32) -> Vec<Rr> {
    let rr = |v: Vec<Vec<u8>>| Rr { name: n.to_string(), ty: TXT, class: 1, ttl, data: Data::Txt(v) };
    let size = |x: &Rr| {
        let mut b = vec![];
        put_rr(&mut b, x, &mut None);
        b.len()
    };
    let text = |r: &mut Rng, len: usize| -> Vec<u8> { (0..len).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyz0123456789")).collect() };
    let fixed = size(&rr(vec![]));
    let goal = match r.below(7) {
        0..=2 => 512 + r.below(5) as usize - 2,
        3..=5 => 65_535 + r.below(5) as usize - 2,
        _ => 65_535 + r.below(6000) as usize,
    };
    let mut left = goal - 12 - (fixed - 10) - 4;
    let mut out: Vec<Rr> = vec![];
    while left > fixed {
        let mut here = left - fixed;
        // Records of many sizes, the last of which takes what is left.
        if here > 1200 {
            here = r.range(300, 800) as usize;
        } else if here > 2 * fixed + 40 && r.below(2) == 0 {
            here = here / 2;
        }
        left -= fixed + here;
        let mut v = vec![];
        while here > 0 {
            let l = here.min(256);
            v.push(text(r, l - 1));
            here -= l;
        }
        let x = rr(v);
        if !out.iter().any(|y| y.key() == x.key()) {
            out.push(x);
        }
    }
    out
}

struct Out<'a> {
    r: &'a mut Rng,
    text: String,
    origin: String,
    ttl: u32,
    mixed: bool,
    plain: bool,
}

impl Out<'_> {
    fn sp(&mut self) -> String {
        match self.r.below(5) {
            0 => "\t".into(),
            1 => "   ".into(),
            2 => " \t ".into(),
            _ => " ".into(),
        }
    }
    /// A name, absolute or relative to the origin.
    fn name(&mut self, n: &str) -> String {
        let c = |s: &mut Self, t: &str| if s.mixed { rnd_case(s.r, t) } else { t.to_string() };
        if in_zone(n, &self.origin) && n != self.origin && self.origin != "." && self.r.below(2) == 0 {
            let rel = n[..n.len() - self.origin.len() - 1].to_string();
            // All-digit tokens are numbers, not names.
            if !rel.chars().all(|c| c.is_ascii_digit()) {
                return c(self, &rel);
            }
        }
        c(self, n)
    }
    fn owner(&mut self, n: &str) -> String {
        if lower(n) == lower(&self.origin) && self.r.below(3) > 0 {
            return if self.r.below(2) == 0 { "@".into() } else { String::new() };
        }
        self.name(n)
    }
    fn text_str(&mut self, s: &[u8]) -> String {
        let plain = !s.is_empty() && s.iter().all(|c| c.is_ascii_alphanumeric() || b"-_=,.'".contains(c)) && !s.iter().all(|c| c.is_ascii_digit());
        if plain && self.r.below(2) == 0 {
            return String::from_utf8_lossy(s).into();
        }
        // Unquoted, with everything special escaped (and some plain characters too).
        if !s.is_empty() && s != b"@" && !s.contains(&b' ') && !s.iter().all(|c| c.is_ascii_digit()) && self.r.below(3) == 0 {
            let mut o = String::new();
            for c in s {
                if b"\"\\;()$@".contains(c) || (!c.is_ascii_digit() && self.r.below(8) == 0) {
                    o.push('\\');
                }
                o.push(*c as char);
            }
            return o;
        }
        let mut o = String::from("\"");
        for c in s {
            if *c == b'"' || *c == b'\\' {
                o.push('\\');
            }
            o.push(*c as char);
        }
        o.push('"');
        o
    }
    fn comment(&mut self) -> String {
        match self.r.below(6) {
            0 => " ; a comment ( with \" odd ) things".into(),
            1 => "   ".into(),
            _ => String::new(),
        }
    }
    /// Joins the data tokens, possibly over several lines in parentheses.
    fn data(&mut self, toks: Vec<String>) -> String {
        if self.plain || toks.is_empty() || self.r.below(4) > 0 {
            let mut s = String::new();
            for t in toks {
                s += &self.sp();
                s += &t;
            }
            return s;
        }
        let open = self.r.below(toks.len() as u64) as usize;
        let mut s = String::new();
        for (i, t) in toks.iter().enumerate() {
            if i == open {
                s += " (";
                if self.r.below(2) == 0 {
                    s += &self.comment();
                    s += "\n";
                }
            }
            s += &self.sp();
            s += t;
            if i >= open && self.r.below(2) == 0 {
                s += &self.comment();
                s += "\n";
            }
        }
        s += " )";
        s
    }
    fn rr(&mut self, rr: &Rr, soa: bool) {
        let owner = if soa {
            match self.r.below(3) {
                0 => "@".to_string(),
                1 => String::new(),
                _ => rr.name.clone(),
            }
        } else {
            self.owner(&rr.name)
        };
        let t = if rr.ttl == self.ttl && self.r.below(2) == 0 { String::new() } else { rr.ttl.to_string() };
        let class = soa || self.r.below(2) == 0;
        let mut pre = String::new();
        let sp = self.sp();
        match (class, self.r.below(2)) {
            (false, _) => pre += &format!("{}{}", sp, t),
            (true, 0) => pre += &format!("{}{}{}IN", sp, t, if t.is_empty() { "" } else { " " }),
            (true, _) => pre += &format!("{}IN {}", sp, t),
        }
        let (ty, toks): (&str, Vec<String>) = match &rr.data {
            Data::A(ip) => ("A", vec![format!("{}.{}.{}.{}", ip[0], ip[1], ip[2], ip[3])]),
            Data::Name(n) if rr.ty == PTR => ("PTR", vec![n.clone()]),
            Data::Name(n) if rr.ty == CNAME => {
                if lower(n) == lower(&self.origin) && self.r.below(2) == 0 {
                    ("CNAME", vec!["@".into()])
                } else {
                    ("CNAME", vec![self.name(n)])
                }
            }
            Data::Name(n) => ("NS", vec![self.name(n)]),
            Data::Soa(a, b, v) => {
                let mut t = vec![self.name(a), self.name(b)];
                t.extend(v.iter().map(|x| x.to_string()));
                ("SOA", t)
            }
            Data::Mx(p, n) => ("MX", vec![p.to_string(), self.name(n)]),
            Data::Txt(v) => ("TXT", v.iter().map(|s| self.text_str(s)).collect()),
            Data::Hinfo(a, b) => ("HINFO", vec![self.text_str(a), self.text_str(b)]),
            Data::Wks(ip, p, _) => {
                let mut t = vec![format!("{}.{}.{}.{}", ip[0], ip[1], ip[2], ip[3]), if *p == 6 { "TCP" } else { "udp" }.to_string()];
                if self.r.below(2) == 0 {
                    t.extend(["ftp".to_string(), "telnet".to_string()]);
                }
                ("WKS", t)
            }
            Data::Raw(_) => return,
        };
        let sp = self.sp();
        let d = self.data(toks);
        let c = self.comment();
        self.text += &format!("{}{}{}{}{}{}\n", owner, pre, sp, ty, d, c);
        self.ttl = rr.ttl;
        if self.r.below(8) == 0 {
            self.text += ["\n", "; only a comment\n", "   \n", "\t; indented comment\n"][self.r.below(4) as usize];
        }
    }
}

fn render(z: &mut Zone, r: &mut Rng, o: &ZoneOpts) {
    let mut files = BTreeMap::new();
    let top_conf = if o.mixed_case { rnd_case(r, &z.top) } else { z.top.clone() };
    let sub_confs: Vec<String> = z.subs.iter().map(|s| if o.mixed_case { rnd_case(r, &s.name) } else { s.name.clone() }).collect();
    let plain = r.below(3) == 0;
    let origins: Vec<String> = z.names();
    // WKS and the text of includes must not be split in strange ways: see the parser.
    let mut out = Out { r, text: String::new(), origin: z.top.clone(), ttl: z.starting_ttl, mixed: o.mixed_case, plain };
    out.rr(&z.soa, true);
    // (as read by the parser, the SOA's own TTL does not change the current one)
    out.ttl = z.starting_ttl;
    let mut i = 0;
    let mut inc = 0;
    while i < z.recs.len() {
        if out.r.below(10) == 0 {
            let n = out.r.pick(&origins).clone();
            out.text += &format!("$ORIGIN {}{}\n", n, ["", " ", " ; new origin"][out.r.below(3) as usize]);
            out.origin = n;
        }
        if o.includes && inc < 4 && out.r.below(14) == 0 {
            let k = (out.r.range(1, 6) as usize).min(z.recs.len() - i);
            let file = format!("/sim/include{}", inc);
            inc += 1;
            let child_origin = if out.r.below(2) == 0 { Some(out.r.pick(&origins).clone()) } else { None };
            let (so, st) = (out.origin.clone(), out.ttl);
            let saved = std::mem::take(&mut out.text);
            if let Some(c) = &child_origin {
                out.origin = c.clone();
            }
            for rr in &z.recs[i..i + k] {
                out.rr(rr, false);
            }
            if out.r.below(3) == 0 {
                // No newline at the end of the file.
                out.text = out.text.trim_end_matches('\n').to_string();
            }
            files.insert(file.clone(), std::mem::take(&mut out.text).into_bytes());
            out.text = saved;
            out.origin = so;
            out.ttl = st;
            let dom = match &child_origin {
                Some(c) => format!(" {}", out.name(c)),
                None => String::new(),
            };
            out.text += &format!("$INCLUDE {}{}\n", file, dom);
            i += k;
            continue;
        }
        let rr = z.recs[i].clone();
        out.rr(&rr, false);
        i += 1;
    }
    files.insert("/sim/zone".to_string(), std::mem::take(&mut out.text).into_bytes());
    for (i, s) in z.subs.iter().enumerate() {
        out.origin = s.name.clone();
        out.ttl = s.starting_ttl;
        let mut all: Vec<&Rr> = s.ns.iter().chain(&s.glue).collect();
        if out.r.below(2) == 0 {
            all = s.glue.iter().chain(&s.ns).collect();
        }
        for rr in all {
            out.rr(rr, false);
        }
        files.insert(z.subs[i].file.clone(), std::mem::take(&mut out.text).into_bytes());
    }
    z.conf = json!({
        "zone": top_conf, "file": "/sim/zone", "starting_ttl": z.starting_ttl,
        "sub_zones": z.subs.iter().enumerate().map(|(i, s)| json!({"zone": sub_confs[i], "file": s.file, "starting_ttl": s.starting_ttl, "min_ttl": s.min_ttl})).collect::<Vec<_>>(),
    });
    z.files = files;
}
