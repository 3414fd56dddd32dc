//! What the resolver prints about a lookup, compared with what it did.
use crate::wire::*;
use std::collections::BTreeSet;

/// What happened between the receipt of a client query and its reply.
pub struct Facts<'a> {
    pub id: u16,
    pub q: &'a Q,
    pub reply: &'a Msg,
    /// Upstream messages, in order: question, the address asked, the accepted reply.
    pub sent: Vec<(&'a str, u16, [u8; 4], Option<&'a Msg>)>,
    /// Something failed, so that a server may not have been asked after all.
    pub hurt: bool,
    pub verbose: bool,
    /// Escape sequences: never, or where colours are configured.
    pub escapes: Option<bool>,
}

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Start(String, u16),
    Hit(String, u16),
    Miss(String, u16),
    NsHit(String),
    NsMiss(String),
    Ask { name: String, ty: u16, ns: String, zone: String },
    Answers,
    Alias,
    Deleg,
    Nx,
    Failed,
    Raw,
    /// "Answers:" and so on, in what precedes the outcome when tracing is verbose.
    Part,
    Extra,
    Rec(String),
}

const TYPES: &[(&str, u16)] = &[("A", A), ("NS", NS), ("CNAME", CNAME), ("SOA", SOA), ("WKS", WKS), ("PTR", PTR), ("HINFO", HINFO), ("MX", MX), ("TXT", TXT)];

fn ty_of(s: &str) -> Option<u16> {
    TYPES.iter().find(|t| t.0 == s).map(|t| t.1)
}
fn ty_name(t: u16) -> &'static str {
    TYPES.iter().find(|x| x.1 == t).map(|t| t.0).unwrap_or("?")
}

pub fn strip(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\x1b' {
            o.push(c);
            continue;
        }
        for d in it.by_ref() {
            if d.is_ascii_alphabetic() {
                break;
            }
        }
    }
    o
}

/// A record in a form that both sides have: type, owner, and the data of common types.
fn canon(r: &Rr) -> String {
    let d = match &r.data {
        Data::A(ip) if r.ty == A => format!("{}.{}.{}.{}", ip[0], ip[1], ip[2], ip[3]),
        Data::Name(n) => lower(n),
        _ => String::new(),
    };
    format!("{} {} {}", ty_name(r.ty), lower(&r.name), d)
}

fn parse_rec(l: &str) -> Option<String> {
    let (t, rest) = l.split_once(" { ")?;
    let t = ty_of(t)?;
    let node = rest.split_once("node: Name(\"")?.1.split_once("\")")?.0;
    let rest = rest.split_once("\")")?.1;
    let d = match t {
        A => rest.split_once("address: [")?.1.split_once(']')?.0.replace(", ", "."),
        NS | CNAME | PTR => rest.split_once("ame: Name(\"")?.1.split_once("\")")?.0.to_lowercase(),
        _ => String::new(),
    };
    Some(format!("{} {} {}", ty_name(t), node.to_lowercase(), d))
}

fn parse_line(l: &str) -> Option<Ev> {
    let typed = |l: &str, a: &str, m: &str, e: &str| -> Option<(String, u16)> {
        let l = l.strip_prefix(a)?.strip_suffix(e)?;
        let i = l.rfind(m)?;
        Some((l[..i].to_lowercase(), ty_of(&l[i + m.len()..])?))
    };
    if let Some((n, t)) = typed(l, "Starting resolution of ", " records (type ", ").") {
        return Some(Ev::Start(n, t));
    }
    if let Some((n, t)) = typed(l, "Cache hit for '", "' (type ", ").") {
        return Some(Ev::Hit(n, t));
    }
    if let Some((n, t)) = typed(l, "Cache miss for '", "' (type ", ").") {
        return Some(Ev::Miss(n, t));
    }
    if let Some(n) = l.strip_prefix("Cache hit searching nameservers for '") {
        return Some(Ev::NsHit(n.trim_end_matches("'.").to_lowercase()));
    }
    if let Some(n) = l.strip_prefix("Cache miss searching nameservers for '") {
        return Some(Ev::NsMiss(n.trim_end_matches("'.").to_lowercase()));
    }
    if let Some(r) = l.strip_prefix("Asking '") {
        let (name, r) = r.split_once("' (record type: '")?;
        let (ty, r) = r.split_once("') to nameserver '")?;
        let (ns, r) = r.split_once("' (auth over '")?;
        let zone = r.split_once("')")?.0.to_lowercase();
        return Some(Ev::Ask { name: name.to_lowercase(), ty: ty_of(ty)?, ns: ns.to_lowercase(), zone });
    }
    for (p, e) in [("Answers found:", Ev::Answers), ("Alias to canonical name found:", Ev::Alias), ("Delegation to sub-zone found:", Ev::Deleg), ("No domain (NX code)", Ev::Nx), ("Asking to nameserver failed", Ev::Failed), ("Header: ", Ev::Raw)] {
        if l.starts_with(p) {
            return Some(e);
        }
    }
    for p in ["Questions:", "Answers:", "Authorities:", "Additionals:", "Question {"] {
        if l.starts_with(p) {
            return Some(Ev::Part);
        }
    }
    if l.starts_with("Additionals found:") || l.starts_with("Delegations (hints) found:") {
        return Some(Ev::Extra);
    }
    parse_rec(l).map(Ev::Rec)
}

/// Does this line begin a record of the log?
pub fn is_head(l: &str) -> bool {
    l.len() > 20 && l.as_bytes()[..4].iter().all(|b| b.is_ascii_digit()) && l.as_bytes()[4] == b'-' && l.contains('[')
}

/// The traces in what a thread has printed: (head, the lines).
pub fn traces(out: &str) -> Vec<(String, Vec<String>)> {
    let mut v: Vec<(String, Vec<String>)> = vec![];
    let mut inside = false;
    for l in out.lines() {
        let plain = strip(l);
        if is_head(&plain) {
            inside = plain.contains("Lookup trace");
            if inside {
                v.push((plain, vec![]));
            }
        } else if inside {
            v.last_mut().unwrap().1.push(l.to_string());
        }
    }
    v
}

type Bad = (&'static str, String);

pub fn judge(tr: &[(String, Vec<String>)], f: &Facts, knows: &dyn Fn(&str, [u8; 4]) -> bool) -> Result<(), Bad> {
    let mine = format!("[{}]", f.id);
    if tr.len() != 1 {
        return Err(("trace-count", format!("{} traces were printed for one lookup", tr.len())));
    }
    let (head, lines) = &tr[0];
    if !head.contains(&mine) {
        return Err(("trace-of-other", format!("the trace printed before the reply has another ID: {:?}", head)));
    }
    let esc = lines.iter().any(|l| l.contains('\x1b'));
    if f.escapes.is_some_and(|e| e != esc) {
        let l = lines.iter().find(|l| l.contains('\x1b')).cloned().unwrap_or_default();
        return Err(("trace-colours", format!("colours are {}configured, and the trace {}: {:?}", if esc { "not " } else { "" }, if esc { "has some" } else { "has none" }, l)));
    }
    // Depth, what it is, the records below it.
    let mut evs: Vec<(usize, Ev, Vec<String>, bool)> = vec![];
    let mut extra = false;
    for l in lines {
        let plain = strip(l);
        let text = plain.trim_start_matches('\t');
        if text.is_empty() {
            continue;
        }
        match parse_line(text) {
            Some(Ev::Rec(r)) => match evs.last_mut() {
                Some(_) if extra => {}
                Some(e) => e.2.push(r),
                None => return Err(("trace-form", format!("the trace begins with a record: {:?}", text))),
            },
            Some(Ev::Extra) => extra = true,
            Some(e) => {
                extra = false;
                evs.push((plain.len() - text.len(), e, vec![], false));
            }
            // (The reason of a failure may go on for several lines.)
            None if matches!(evs.last(), Some((_, Ev::Failed, ..))) => {}
            None => return Err(("trace-form", format!("unexpected line in the trace: {:?}", text))),
        }
    }
    if evs.first().map(|e| (e.0, &e.1)) != Some((0, &Ev::Start(lower(&f.q.name), f.q.ty))) {
        return Err(("trace-start", format!("the trace does not begin with the question: {:?}", evs.first())));
    }
    // The servers asked: what the trace lists is what was sent, in order.
    let mut runs: Vec<(&str, u16, [u8; 4], Vec<&Msg>)> = vec![];
    for (n, t, ip, m) in &f.sent {
        match runs.last_mut() {
            Some(r) if (r.0, r.1, r.2) == (*n, *t, *ip) => r.3.extend(m),
            _ => runs.push((n, *t, *ip, m.iter().copied().collect())),
        }
    }
    let short = |r: &(&str, u16, [u8; 4], Vec<&Msg>)| format!("{} {} to {:?}", r.0, ty_name(r.1), r.2);
    // (Those nameservers whose addresses are searched count, too.)
    let subs = evs.iter().filter(|e| e.0 > 0 && matches!(e.1, Ev::Start(..))).count();
    let lenient = f.hurt || f.sent.len() + subs >= 250;
    let mut p = 0;
    let mut matched: Vec<Option<usize>> = vec![None; evs.len()];
    for (i, (_, e, ..)) in evs.iter().enumerate() {
        let Ev::Ask { name, ty, ns, .. } = e else { continue };
        let fits = |r: &(&str, u16, [u8; 4], Vec<&Msg>)| r.0 == name && r.1 == *ty && knows(ns, r.2);
        if p < runs.len() && fits(&runs[p]) {
            matched[i] = Some(p);
            p += 1;
        } else if p > 0 && fits(&runs[p - 1]) {
            matched[i] = Some(p - 1);
        } else if !lenient {
            let next = runs.get(p).map(short);
            return Err(("trace-not-sent", format!("the trace says that {} was asked for {} {}; what was sent next is {:?}", ns, name, ty_name(*ty), next)));
        }
    }
    if p < runs.len() {
        return Err(("not-in-trace", format!("a query was sent that the trace does not list: {} ({} of {} are listed)", short(&runs[p]), p, runs.len())));
    }
    // One outcome for each; the question and the server follow from the lines before.
    let mut open: Option<(usize, usize)> = None;
    let mut raw = false;
    let mut start: Vec<Option<(String, u16)>> = vec![];
    let mut allowed: Vec<Option<BTreeSet<String>>> = vec![];
    // Is this the lookup's first name (and not one that an alias led to)?
    let mut first: Vec<bool> = vec![];
    let mut last0 = 0;
    for (i, (d, e, recs, _)) in evs.iter().enumerate() {
        // (What is deeper is over.)
        start.resize(d + 1, None);
        allowed.resize(d + 1, None);
        first.resize(d + 1, true);
        if *d == 0 && !matches!(e, Ev::Raw | Ev::Part | Ev::Start(..)) {
            last0 = i;
        }
        let outcome = matches!(e, Ev::Answers | Ev::Alias | Ev::Deleg | Ev::Nx | Ev::Failed);
        if !outcome && !matches!(e, Ev::Raw | Ev::Part) && open.is_some() {
            return Err(("trace-no-outcome", format!("no outcome follows {:?}; what follows is {:?}", evs[open.unwrap().0].1, e)));
        }
        // Zones with their servers.
        let servers = || -> BTreeSet<String> { recs.iter().filter_map(|r| r.strip_prefix("NS ")).map(|r| r.to_string()).collect() };
        match e {
            Ev::Start(n, t) => {
                first[*d] = start[*d].is_none();
                start[*d] = Some((n.clone(), *t));
                allowed[*d] = None;
            }
            Ev::Ask { name, ty, ns, zone } => {
                if start[*d].as_ref() != Some(&(name.clone(), *ty)) {
                    return Err(("trace-of-other", format!("{:?} does not belong to the resolution {:?} it is listed under", e, start[*d])));
                }
                if allowed[*d].as_ref().is_some_and(|a| !a.contains(&format!("{} {}", zone, ns))) {
                    return Err(("trace-server", format!("{:?} is asked although the nameservers found are {:?}", e, allowed[*d])));
                }
                if allowed[*d].is_none() && first[*d] {
                    return Err(("trace-server", format!("{:?} is asked; where it was found is not listed", e)));
                }
                open = Some((i, *d));
                raw = false;
            }
            Ev::Hit(n, t) | Ev::Miss(n, t) => {
                let own = |r: &String| r.starts_with(&format!("{} {} ", ty_name(*t), n));
                if matches!(e, Ev::Hit(..)) && (recs.is_empty() || !recs.iter().all(own)) {
                    return Err(("trace-records", format!("{:?} lists {:?}", e, recs)));
                }
                if start[*d].as_ref().is_none_or(|s| s.0 != *n || s.1 != *t && *t != CNAME) {
                    return Err(("trace-of-other", format!("{:?} does not belong to the resolution {:?} it is listed under", e, start[*d])));
                }
            }
            Ev::NsHit(n) | Ev::NsMiss(n) => {
                if start[*d].as_ref().is_none_or(|s| s.0 != *n) {
                    return Err(("trace-of-other", format!("{:?} does not belong to the resolution {:?} it is listed under", e, start[*d])));
                }
                allowed[*d] = Some(match e {
                    Ev::NsHit(_) => servers(),
                    _ => (b'a'..=b'm').map(|c| format!(". {}.root-servers.net.", c as char)).collect(),
                });
            }
            Ev::Raw => raw = true,
            Ev::Part => {}
            _ => {
                let Some((a, d2)) = open.take() else {
                    return Err(("trace-form", format!("an outcome that belongs to no query: {:?}", e)));
                };
                if d2 != *d {
                    return Err(("trace-form", format!("the outcome of {:?} is listed elsewhere: {:?}", evs[a].1, e)));
                }
                if raw != f.verbose && !(*e == Ev::Failed && !raw) {
                    return Err(("trace-verbosity", format!("the complete reply is {} before {:?} of {:?}", if raw { "listed" } else { "missing" }, e, evs[a].1)));
                }
                if *e == Ev::Deleg {
                    allowed[*d] = Some(servers());
                }
                let (Some(r), Ev::Ask { name, ty, .. }) = (matched[a].map(|r| &runs[r]), &evs[a].1) else { continue };
                let got = &r.3;
                let set = |v: &[Rr], f: &dyn Fn(&Rr) -> bool| -> Vec<String> {
                    let mut s: Vec<String> = v.iter().filter(|x| f(x)).map(canon).collect();
                    s.sort();
                    s
                };
                let mut said = recs.clone();
                said.sort();
                let ok = match e {
                    Ev::Answers => got.iter().any(|m| m.h.rcode == 0 && set(&m.an, &|x| lower(&x.name) == *name && x.ty == *ty) == said),
                    Ev::Alias => got.iter().any(|m| m.h.rcode == 0 && said.iter().all(|s| m.an.iter().any(|x| canon(x) == *s))),
                    Ev::Deleg => got.iter().any(|m| m.h.rcode == 0 && said.iter().all(|s| m.ns.iter().chain(&m.ar).any(|x| canon(x) == *s))),
                    Ev::Nx => got.iter().any(|m| m.h.rcode == 3 && m.h.aa),
                    _ => f.hurt || matched.iter().filter(|x| **x == matched[a]).count() > 1 || got.is_empty() || !got.iter().all(|m| m.h.rcode == 0 && m.an.iter().any(|x| lower(&x.name) == *name && x.ty == *ty)),
                };
                if !ok {
                    return Err(("trace-outcome", format!("the trace says {:?} {:?} of {}; the replies were {:?}", e, recs, short(r), got.iter().map(|m| m.brief()).collect::<Vec<_>>())));
                }
            }
        }
    }
    if let Some((a, _)) = open {
        return Err(("trace-no-outcome", format!("no outcome follows {:?}", evs[a].1)));
    }
    // The aliases followed are those of the reply.
    if f.reply.h.rcode == 0 && !f.reply.h.tc {
        let followed: Vec<String> = evs.iter().filter(|e| e.0 == 0).filter_map(|e| if let Ev::Start(n, _) = &e.1 { Some(n.clone()) } else { None }).skip(1).collect();
        let n = if f.q.ty == CNAME { 0 } else { f.reply.an.iter().filter(|r| r.ty == CNAME).count() };
        let aliases: Vec<String> = f.reply.an[..n.min(f.reply.an.len())].iter().filter_map(|r| r.target()).map(lower).collect();
        if followed != aliases {
            return Err(("trace-aliases", format!("the trace follows the aliases {:?}; the reply is {}", followed, f.reply.brief())));
        }
    }
    // The end of it is the reply.
    let (_, e, recs, _) = &evs[last0];
    let direct = matches!(e, Ev::Answers) || matches!(e, Ev::Hit(_, t) if *t == f.q.ty);
    let ok = match f.reply.h.rcode {
        0 => direct,
        3 => *e == Ev::Nx,
        _ => !direct && *e != Ev::Nx,
    };
    if !ok {
        return Err(("trace-end", format!("the trace ends with {:?}; the reply is {}", e, f.reply.brief())));
    }
    if f.reply.h.rcode == 0 && !f.reply.h.tc {
        let mut a: Vec<String> = f.reply.an.iter().filter(|x| x.ty == f.q.ty && recs.iter().any(|r| r.split(' ').nth(1) == Some(&lower(&x.name)))).map(canon).collect();
        let mut b = recs.clone();
        a.sort();
        b.sort();
        if a != b {
            return Err(("trace-records", format!("the trace ends with {:?} {:?}; the reply is {}", e, recs, f.reply.brief())));
        }
    }
    Ok(())
}
