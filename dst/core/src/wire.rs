//! An independent DNS codec used by clients, upstream actors and oracles.
use std::collections::BTreeMap;

pub const A: u16 = 1;
pub const NS: u16 = 2;
pub const CNAME: u16 = 5;
pub const SOA: u16 = 6;
pub const WKS: u16 = 11;
pub const PTR: u16 = 12;
pub const HINFO: u16 = 13;
pub const MX: u16 = 15;
pub const TXT: u16 = 16;
pub const KNOWN: &[u16] = &[A, NS, CNAME, SOA, WKS, PTR, HINFO, MX, TXT];

/// Lower-cased absolute name with a trailing dot.
pub fn lower(n: &str) -> String {
    n.to_ascii_lowercase()
}
/// Is `n` at or below `zone` (both absolute, compared by labels, case-insensitively)?
pub fn in_zone(n: &str, zone: &str) -> bool {
    let n = lower(n);
    let z = lower(zone);
    z == "." || n == z || n.ends_with(&format!(".{}", z))
}
pub fn labels(n: &str) -> usize {
    n.split('.').filter(|l| !l.is_empty()).count()
}
pub fn parent(n: &str) -> String {
    match n.split_once('.') {
        Some((_, r)) if !r.is_empty() => r.to_string(),
        _ => ".".to_string(),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Data {
    A([u8; 4]),
    Name(String),
    Soa(String, String, [u32; 5]),
    Mx(u16, String),
    Txt(Vec<Vec<u8>>),
    Hinfo(Vec<u8>, Vec<u8>),
    Wks([u8; 4], u8, Vec<u8>),
    Raw(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Rr {
    pub name: String,
    pub ty: u16,
    pub class: u16,
    pub ttl: u32,
    pub data: Data,
}
impl Rr {
    pub fn new(name: &str, ty: u16, ttl: u32, data: Data) -> Rr {
        Rr { name: name.to_string(), ty, class: 1, ttl, data }
    }
    pub fn a(name: &str, ttl: u32, ip: [u8; 4]) -> Rr {
        Rr::new(name, A, ttl, Data::A(ip))
    }
    pub fn ns(name: &str, ttl: u32, t: &str) -> Rr {
        Rr::new(name, NS, ttl, Data::Name(t.to_string()))
    }
    pub fn cname(name: &str, ttl: u32, t: &str) -> Rr {
        Rr::new(name, CNAME, ttl, Data::Name(t.to_string()))
    }
    /// Canonical form: names lower-cased.
    pub fn canon(&self) -> Rr {
        let mut r = self.clone();
        r.name = lower(&r.name);
        r.data = match r.data {
            Data::Name(n) => Data::Name(lower(&n)),
            Data::Soa(a, b, v) => Data::Soa(lower(&a), lower(&b), v),
            Data::Mx(p, n) => Data::Mx(p, lower(&n)),
            Data::Wks(a, p, mut m) => {
                while m.last() == Some(&0) {
                    m.pop();
                }
                Data::Wks(a, p, m)
            }
            d => d,
        };
        r
    }
    pub fn target(&self) -> Option<&str> {
        match &self.data {
            Data::Name(n) => Some(n),
            _ => None,
        }
    }
    pub fn key(&self) -> Rr {
        let mut r = self.canon();
        r.ttl = 0;
        r
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Hdr {
    pub id: u16,
    pub qr: bool,
    pub opcode: u8,
    pub aa: bool,
    pub tc: bool,
    pub rd: bool,
    pub ra: bool,
    pub z: u8,
    pub rcode: u8,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Q {
    pub name: String,
    pub ty: u16,
    pub class: u16,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Msg {
    pub h: Hdr,
    pub q: Vec<Q>,
    pub an: Vec<Rr>,
    pub ns: Vec<Rr>,
    pub ar: Vec<Rr>,
    /// Byte offset of the end of each item (questions and records), in order.
    pub ends: Vec<usize>,
}

pub fn put_name(out: &mut Vec<u8>, n: &str, comp: &mut Option<BTreeMap<String, usize>>) {
    let mut rest = n.trim_end_matches('.').to_string();
    while !rest.is_empty() {
        if let Some(m) = comp {
            let k = lower(&rest);
            if let Some(off) = m.get(&k) {
                out.push(0xC0 | (*off >> 8) as u8);
                out.push(*off as u8);
                return;
            }
            if out.len() < 0x3FFF {
                m.insert(k, out.len());
            }
        }
        let (l, r) = match rest.split_once('.') {
            Some((l, r)) => (l.to_string(), r.to_string()),
            None => (rest.clone(), String::new()),
        };
        out.push(l.len() as u8);
        out.extend_from_slice(l.as_bytes());
        rest = r;
    }
    out.push(0);
}

pub fn put_rr(out: &mut Vec<u8>, r: &Rr, comp: &mut Option<BTreeMap<String, usize>>) {
    put_name(out, &r.name, comp);
    out.extend_from_slice(&r.ty.to_be_bytes());
    out.extend_from_slice(&r.class.to_be_bytes());
    out.extend_from_slice(&r.ttl.to_be_bytes());
    let lp = out.len();
    out.extend_from_slice(&[0, 0]);
    match &r.data {
        Data::A(ip) => out.extend_from_slice(ip),
        Data::Name(n) => put_name(out, n, comp),
        Data::Soa(a, b, v) => {
            put_name(out, a, comp);
            put_name(out, b, comp);
            for x in v {
                out.extend_from_slice(&x.to_be_bytes());
            }
        }
        Data::Mx(p, n) => {
            out.extend_from_slice(&p.to_be_bytes());
            put_name(out, n, comp);
        }
        Data::Txt(v) => {
            for s in v {
                out.push(s.len() as u8);
                out.extend_from_slice(s);
            }
        }
        Data::Hinfo(a, b) => {
            for s in [a, b] {
                out.push(s.len() as u8);
                out.extend_from_slice(s);
            }
        }
        Data::Wks(a, p, m) => {
            out.extend_from_slice(a);
            out.push(*p);
            out.extend_from_slice(m);
        }
        Data::Raw(v) => out.extend_from_slice(v),
    }
    let n = (out.len() - lp - 2) as u16;
    out[lp..lp + 2].copy_from_slice(&n.to_be_bytes());
}

impl Msg {
    pub fn query(id: u16, name: &str, ty: u16, rd: bool) -> Msg {
        Msg {
            h: Hdr { id, rd, ..Default::default() },
            q: vec![Q { name: name.to_string(), ty, class: 1 }],
            ..Default::default()
        }
    }
    pub fn reply_to(&self) -> Msg {
        Msg {
            h: Hdr { qr: true, aa: false, rcode: 0, ..self.h.clone() },
            q: self.q.clone(),
            ..Default::default()
        }
    }
    pub fn encode(&self, compress: bool) -> Vec<u8> {
        let mut o = vec![];
        let h = &self.h;
        o.extend_from_slice(&h.id.to_be_bytes());
        o.push((h.qr as u8) << 7 | (h.opcode & 15) << 3 | (h.aa as u8) << 2 | (h.tc as u8) << 1 | h.rd as u8);
        o.push((h.ra as u8) << 7 | (h.z & 7) << 4 | (h.rcode & 15));
        for n in [self.q.len(), self.an.len(), self.ns.len(), self.ar.len()] {
            o.extend_from_slice(&(n as u16).to_be_bytes());
        }
        let mut comp = if compress { Some(BTreeMap::new()) } else { None };
        for q in &self.q {
            put_name(&mut o, &q.name, &mut comp);
            o.extend_from_slice(&q.ty.to_be_bytes());
            o.extend_from_slice(&q.class.to_be_bytes());
        }
        for r in self.an.iter().chain(&self.ns).chain(&self.ar) {
            put_rr(&mut o, r, &mut comp);
        }
        o
    }
    /// Encodes for UDP: drops whole trailing records and sets TC beyond the limit.
    pub fn encode_udp(&self, limit: usize) -> Vec<u8> {
        let full = self.encode(true);
        if full.len() <= limit {
            return full;
        }
        let mut m = self.clone();
        m.h.tc = true;
        // No record is shorter than 11 bytes.
        while m.an.len() + m.ns.len() + m.ar.len() > limit / 11 + 1 {
            let _ = m.ar.pop().is_none() && m.ns.pop().is_none() && m.an.pop().is_none();
        }
        loop {
            if m.ar.pop().is_none() && m.ns.pop().is_none() && m.an.pop().is_none() {
                break;
            }
            let e = m.encode(true);
            if e.len() <= limit {
                return e;
            }
        }
        m.encode(true)
    }
    pub fn decode(b: &[u8]) -> Result<Msg, String> {
        let mut p = P { b, i: 0 };
        let id = p.u16()?;
        let f1 = p.u8()?;
        let f2 = p.u8()?;
        let mut m = Msg {
            h: Hdr {
                id,
                qr: f1 & 0x80 != 0,
                opcode: f1 >> 3 & 15,
                aa: f1 & 4 != 0,
                tc: f1 & 2 != 0,
                rd: f1 & 1 != 0,
                ra: f2 & 0x80 != 0,
                z: f2 >> 4 & 7,
                rcode: f2 & 15,
            },
            ..Default::default()
        };
        let (nq, na, nn, nr) = (p.u16()?, p.u16()?, p.u16()?, p.u16()?);
        for _ in 0..nq {
            let name = p.name()?;
            let ty = p.u16()?;
            let class = p.u16()?;
            m.q.push(Q { name, ty, class });
            m.ends.push(p.i);
        }
        for (sec, n) in [(0, na), (1, nn), (2, nr)] {
            for _ in 0..n {
                let r = p.rr()?;
                m.ends.push(p.i);
                match sec {
                    0 => m.an.push(r),
                    1 => m.ns.push(r),
                    _ => m.ar.push(r),
                }
            }
        }
        if p.i != b.len() {
            return Err(format!("{} bytes left over", b.len() - p.i));
        }
        Ok(m)
    }
    pub fn sections(&self) -> [&Vec<Rr>; 3] {
        [&self.an, &self.ns, &self.ar]
    }
    pub fn brief(&self) -> String {
        let q = self.q.first().map(|q| format!("{} {}", q.name, q.ty)).unwrap_or_default();
        format!(
            "id {} qr {} aa {} tc {} rcode {} q[{}] {} an {:?} ns {:?} ar {:?}",
            self.h.id, self.h.qr as u8, self.h.aa as u8, self.h.tc as u8, self.h.rcode, self.q.len(), q,
            brief_rrs(&self.an), brief_rrs(&self.ns), brief_rrs(&self.ar)
        )
    }
}
pub fn brief_rrs(v: &[Rr]) -> Vec<String> {
    v.iter().map(|r| format!("{} {} {} {:?}", r.name, r.ttl, r.ty, r.data)).collect()
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn u8(&mut self) -> Result<u8, String> {
        let v = *self.b.get(self.i).ok_or("message ends early")?;
        self.i += 1;
        Ok(v)
    }
    fn u16(&mut self) -> Result<u16, String> {
        Ok((self.u8()? as u16) << 8 | self.u8()? as u16)
    }
    fn u32(&mut self) -> Result<u32, String> {
        Ok((self.u16()? as u32) << 16 | self.u16()? as u32)
    }
    fn take(&mut self, n: usize) -> Result<Vec<u8>, String> {
        if self.i + n > self.b.len() {
            return Err("message ends early".into());
        }
        self.i += n;
        Ok(self.b[self.i - n..self.i].to_vec())
    }
    fn name(&mut self) -> Result<String, String> {
        let mut s = String::new();
        let mut back = None;
        let mut jumps = 0;
        let mut total = 1;
        loop {
            let l = self.u8()?;
            match l >> 6 {
                0 if l == 0 => break,
                0 => {
                    let d = self.take(l as usize)?;
                    total += l as usize + 1;
                    if total > 255 {
                        return Err("name too long".into());
                    }
                    s.push_str(&String::from_utf8_lossy(&d));
                    s.push('.');
                }
                3 => {
                    let o = ((l & 0x3f) as usize) << 8 | self.u8()? as usize;
                    if back.is_none() {
                        back = Some(self.i);
                    }
                    jumps += 1;
                    if jumps > 100 || o >= self.b.len() {
                        return Err("bad compression pointer".into());
                    }
                    self.i = o;
                }
                _ => return Err("bad label type".into()),
            }
        }
        if let Some(i) = back {
            self.i = i;
        }
        if s.is_empty() {
            s.push('.');
        }
        Ok(s)
    }
    fn rr(&mut self) -> Result<Rr, String> {
        let name = self.name()?;
        let ty = self.u16()?;
        let class = self.u16()?;
        let ttl = self.u32()?;
        let n = self.u16()? as usize;
        let end = self.i + n;
        if end > self.b.len() {
            return Err(format!("record data of {} bytes exceeds the message", n));
        }
        let data = match ty {
            A if n == 4 => Data::A(self.take(4)?.try_into().unwrap()),
            NS | CNAME | PTR => Data::Name(self.name()?),
            SOA => {
                let a = self.name()?;
                let b = self.name()?;
                let mut v = [0u32; 5];
                for x in v.iter_mut() {
                    *x = self.u32()?;
                }
                Data::Soa(a, b, v)
            }
            MX => {
                let p = self.u16()?;
                Data::Mx(p, self.name()?)
            }
            TXT => {
                let mut v = vec![];
                while self.i < end {
                    let l = self.u8()? as usize;
                    v.push(self.take(l)?);
                }
                if v.is_empty() {
                    return Err("TXT record without a string".into());
                }
                Data::Txt(v)
            }
            HINFO => {
                let l = self.u8()? as usize;
                let a = self.take(l)?;
                let l = self.u8()? as usize;
                Data::Hinfo(a, self.take(l)?)
            }
            WKS if n >= 5 => {
                let a = self.take(4)?.try_into().unwrap();
                let p = self.u8()?;
                Data::Wks(a, p, self.take(n - 5)?)
            }
            A | WKS => return Err(format!("bad data length {} for type {}", n, ty)),
            _ => Data::Raw(self.take(n)?),
        };
        if self.i != end {
            return Err(format!("data of a type {} record has length {} but its header says {}", ty, n as i64 + self.i as i64 - end as i64, n));
        }
        Ok(Rr { name, ty, class, ttl, data })
    }
}

pub fn canon_set(v: &[Rr]) -> Vec<Rr> {
    let mut o: Vec<Rr> = v.iter().map(|r| r.canon()).collect();
    o.sort();
    o
}
