//! The simulation kernel: virtual threads (real threads run one at a time), virtual
//! time, the event queue, and the recorded source of all nondeterministic choices.
use crate::case::*;
use crate::fs::Fs;
use crate::net::*;
use crate::raw::*;
use crate::rng::*;
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};

pub type Tid = usize;
pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
/// Monotonic clock value at the start of a run.
pub const MONO_BASE: u64 = 1_000_000 * SEC;
pub const WALL_BASE: u64 = 1_700_000_000 * SEC;

thread_local! {
    static SIM_TID: Cell<i32> = const { Cell::new(-1) };
    static IN_K: Cell<u32> = const { Cell::new(0) };
}

pub static mut K: *mut Kernel = std::ptr::null_mut();
static SCHED: Baton = Baton::new();

pub fn kernel() -> &'static mut Kernel {
    unsafe { &mut *K }
}
pub fn sim_tid() -> i32 {
    SIM_TID.with(|c| c.get())
}
pub fn set_sim_tid(v: i32) {
    SIM_TID.with(|c| c.set(v))
}
/// Is the caller a simulated thread executing outside the kernel?
pub fn in_sim() -> bool {
    sim_tid() >= 0 && IN_K.with(|c| c.get()) == 0
}

/// While alive, the current thread executes kernel (not simulated) code.
pub struct KGuard;
impl KGuard {
    #[allow(clippy::new_without_default)]
    pub fn new() -> KGuard {
        IN_K.with(|c| c.set(c.get() + 1));
        KGuard
    }
}
impl Drop for KGuard {
    fn drop(&mut self) {
        IN_K.with(|c| c.set(c.get() - 1));
    }
}

macro_rules! kinds {
    ($($n:ident $s:literal $f:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
        #[repr(usize)]
        pub enum Kd { $($n),* }
        pub const KIND_NAMES: &[&str] = &[$($s),*];
        /// Is this kind an injected fault (as opposed to a scheduling choice)?
        pub const KIND_FAULT: &[bool] = &[$($f),*];
    }
}
kinds! {
    Preempt "preempt" false, AllocPreempt "alloc_preempt" false, Pick "pick" false, WakeOrder "wake_order" false,
    Spurious "spurious_wakeup" false, Stall "stall" true, UdpLoss "udp_loss" true, UdpDup "udp_dup" true,
    UdpDelay "udp_delay" true, TcpDelay "tcp_delay" true, ShortRead "short_read" true, ShortWrite "short_write" true,
    Eintr "eintr" true, SockErr "socket_err" true, BindErr "bind_err" true, DupErr "dup_err" true,
    AcceptErr "accept_err" true, SendErr "send_err" true, RecvErr "recv_err" true, OptErr "setsockopt_err" true,
    ConnErr "connect_err" true, SpawnErr "spawn_err" true, OpenErr "open_err" true, ReadErr "read_err" true,
    FileShort "file_short_read" true, FileEintr "file_eintr" true, ClockJump "clock_jump" true, SegSplit "tcp_split" false,
    AllocFail "alloc_fail" true, OutErr "output_err" true,
}
pub const NK: usize = KIND_NAMES.len();

/// Deviations are also written to memory shared with the parent, so that they
/// survive a crash of the simulated process: [count, (kind, index, value)*].
pub static mut DEVBUF: *mut u64 = std::ptr::null_mut();
pub const DEVBUF_CAP: usize = 100_000;

pub struct Chooser {
    rng: Vec<Rng>,
    rate: [u32; NK],
    cnt: [u64; NK],
    next: [u64; NK],
    replay: Option<Vec<BTreeMap<u64, u64>>>,
    pub devs: Vec<(usize, u64, u64)>,
    pub fired: [u64; NK],
    pub faults_on: bool,
}

impl Chooser {
    fn new(case: &Case) -> Chooser {
        let mut c = Chooser {
            rng: (0..NK).map(|i| Rng::new(hash2(case.seed, 0xC0FFEE + i as u64))).collect(),
            rate: [0; NK],
            cnt: [0; NK],
            next: [u64::MAX / 2; NK],
            replay: None,
            devs: Vec::with_capacity(4096),
            fired: [0; NK],
            faults_on: true,
        };
        for (i, n) in KIND_NAMES.iter().enumerate() {
            c.rate[i] = *case.rates.get(*n).unwrap_or(&0);
            c.next[i] = c.rng[i].geom(c.rate[i]);
        }
        if let Some(d) = &case.devs {
            let mut m = vec![BTreeMap::new(); NK];
            for (n, i, v) in d {
                if let Some(p) = KIND_NAMES.iter().position(|x| x == n) {
                    m[p].insert(*i, *v);
                }
            }
            c.replay = Some(m);
        }
        c
    }

    pub fn choose(&mut self, kind: Kd, n: u64) -> u64 {
        let i = kind as usize;
        let idx = self.cnt[i];
        self.cnt[i] += 1;
        if n <= 1 || (KIND_FAULT[i] && !self.faults_on) {
            return 0;
        }
        let v = match &self.replay {
            Some(m) => match m[i].get(&idx) {
                Some(v) => *v % n,
                None => 0,
            },
            None => {
                if idx < self.next[i] {
                    0
                } else {
                    self.next[i] = idx + 1 + self.rng[i].geom(self.rate[i]);
                    1 + self.rng[i].below(n - 1)
                }
            }
        };
        if v != 0 {
            self.fired[i] += 1;
            self.devs.push((i, idx, v));
            unsafe {
                if !DEVBUF.is_null() && (*DEVBUF as usize) < DEVBUF_CAP {
                    let p = DEVBUF.add(1 + 3 * *DEVBUF as usize);
                    *p = i as u64;
                    *p.add(1) = idx;
                    *p.add(2) = v;
                    *DEVBUF += 1;
                }
            }
        }
        v
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wait {
    None,
    Futex { addr: usize, mask: u32 },
    Sock(usize),
    Sleep,
    Join(Tid),
    Poll,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TState {
    Runnable,
    Running,
    Blocked,
    Finished,
    Dead,
}

pub const R_WOKEN: i32 = 0;
pub const R_TIMEOUT: i32 = 1;

pub struct Thread {
    pub baton: Box<Baton>,
    pub state: TState,
    pub wait: Wait,
    pub reason: i32,
    pub gen: u64,
    pub pthread: u64,
    pub joined: bool,
    pub stalled: u64,
}

pub enum Ev {
    ThreadTimeout(Tid, u64),
    Timer(u64),
    Udp { src: Addr, dst: Addr, data: Vec<u8> },
    Tcp { conn: usize, to: usize, seg: Seg },
    TcpTimeout { conn: usize },
    Consume { conn: usize, end: usize },
}

/// The environment of the simulated process: clients, upstream servers, attackers
/// and the oracles that watch the traffic.
#[allow(unused_variables)]
pub trait World {
    fn start(&mut self, k: &mut Kernel) {}
    fn timer(&mut self, k: &mut Kernel, token: u64) {}
    /// A datagram arrived at an address that belongs to the environment.
    fn udp_in(&mut self, k: &mut Kernel, at: Addr, src: Addr, data: &[u8]) {}
    /// Does the environment own this address (and how does it react)?
    fn udp_port(&mut self, at: Addr) -> PortKind {
        PortKind::Open
    }
    /// The process under test sent a datagram (whether or not the network delivers it).
    fn udp_sent(&mut self, k: &mut Kernel, src: Addr, dst: Addr, data: &[u8]) {}
    /// A datagram was queued on a socket of the process under test.
    fn udp_queued(&mut self, k: &mut Kernel, at: Addr, src: Addr, data: &[u8]) {}
    /// A datagram was taken out of its socket by the process under test.
    fn udp_taken(&mut self, k: &mut Kernel, at: Addr, src: Addr, data: &[u8]) {}
    /// A datagram was discarded before it reached a socket of the process under test.
    fn udp_dropped(&mut self, k: &mut Kernel, at: Addr, src: Addr, data: &[u8], why: &str) {}
    fn tcp_syn(&mut self, k: &mut Kernel, conn: usize, at: Addr) -> SynReply {
        SynReply::Refuse
    }
    fn tcp_established(&mut self, k: &mut Kernel, conn: usize) {}
    fn tcp_refused(&mut self, k: &mut Kernel, conn: usize) {}
    fn tcp_data(&mut self, k: &mut Kernel, conn: usize, data: &[u8]) {}
    fn tcp_fin(&mut self, k: &mut Kernel, conn: usize) {}
    fn tcp_rst(&mut self, k: &mut Kernel, conn: usize) {}
    /// The process under test wrote bytes to / closed / accepted / read from a connection.
    fn tcp_wrote(&mut self, k: &mut Kernel, conn: usize, data: &[u8]) {}
    fn tcp_closed(&mut self, k: &mut Kernel, conn: usize) {}
    /// The process under test started to connect / took bytes out of a connection.
    fn tcp_connecting(&mut self, k: &mut Kernel, conn: usize, to: Addr) {}
    fn tcp_took(&mut self, k: &mut Kernel, conn: usize, n: usize) {}
    fn tcp_accepted(&mut self, k: &mut Kernel, conn: usize) {}
    /// Data (n > 0) or the end (n = 0) of a stream arrived at the process under test.
    fn tcp_arrived(&mut self, k: &mut Kernel, conn: usize, n: usize) {}
    /// An injected fault hit the given thread; `peer` is the address or connection concerned.
    fn fault(&mut self, k: &mut Kernel, kind: Kd, tid: Tid, peer: FaultPeer) {}
    /// A socket of the process under test was bound or started listening.
    fn bound(&mut self, k: &mut Kernel, tcp: bool, at: Addr) {}
    fn bind_failed(&mut self, k: &mut Kernel, tcp: bool, at: Addr) {}
    /// Should this bind fail (scripted)? Returns an errno.
    fn bind_errno(&mut self, tcp: bool, at: Addr) -> Option<i32> {
        None
    }
    /// Should this thread creation (0-based count) fail?
    fn spawn_fails(&mut self, k: &mut Kernel, n: u64) -> bool {
        false
    }
    /// (how long creating this thread takes, how late it starts to run).
    fn spawn_delays(&mut self, n: u64) -> (u64, u64) {
        (0, 0)
    }
    /// Scripted failures of other calls.
    fn listen_errno(&mut self, k: &mut Kernel) -> Option<i32> {
        None
    }
    fn sockopt_errno(&mut self, k: &mut Kernel, dgram: bool, local: Addr) -> Option<i32> {
        None
    }
    fn socket_errno(&mut self, k: &mut Kernel, dgram: bool) -> Option<i32> {
        None
    }
    /// The process under test printed something.
    fn output(&mut self, k: &mut Kernel, fd: i32, data: &[u8]) {}
    fn exited(&mut self, k: &mut Kernel, code: i32) {}
    fn lib_event(&mut self, k: &mut Kernel, ev: &LibEvent) {}
    fn finish(&mut self, k: &mut Kernel) {}
}

#[derive(Clone, Debug)]
pub struct LibEvent {
    pub tid: Tid,
    pub kind: &'static str,
    pub a: u64,
    pub b: u64,
    pub c: u64,
    pub s: String,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FaultPeer {
    None,
    Udp { local: Addr, peer: Addr },
    Conn(usize),
    File,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum PortKind {
    Open,
    Closed,
    Blackhole,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SynReply {
    Accept,
    Refuse,
    Ignore,
}

pub struct Kernel {
    pub now: u64,
    pub seq: u64,
    pub tick: u64,
    pub threads: Vec<Thread>,
    pub runq: VecDeque<Tid>,
    pub cur: Tid,
    pub events: BTreeMap<(u64, u64), Ev>,
    pub ch: Chooser,
    pub net: Net,
    pub fs: Fs,
    pub world: Option<Box<dyn World>>,
    pub exited: Option<(i32, u64)>,
    pub aborted: bool,
    pub ended: Option<String>,
    pub stop: bool,
    pub horizon: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub switches: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub violations: Vec<Violation>,
    pub probes: BTreeMap<String, u64>,
    pub panics: Vec<(u64, Tid, String)>,
    pub ent: Rng,
    pub wall_off: i64,
    pub wall_jumps: bool,
    pub spawned: u64,
    pub total_stall: u64,
    pub stalls: Vec<(u64, u64)>,
    pub log_on: bool,
    pub log: Vec<String>,
    pub case: Case,
    pub nontrivial: bool,
    pub in_alloc_preempt: bool,
    /// Output calls are not scheduling points (and cost no time).
    pub quiet_io: bool,
    /// Sending to these addresses blocks the sender for a while (full send buffer).
    pub slow_send: BTreeMap<Addr, u64>,
    /// What the process does on the wire, while variants of a case are compared.
    pub transcript: Vec<String>,
    written: BTreeMap<usize, usize>,
}

impl Kernel {
    /// Notes an action of the process on the wire (except for what is random by design).
    pub fn wire_udp(&mut self, src: Addr, dst: Addr, data: &[u8]) {
        if self.quiet_io {
            let ours = src.port as i64 == self.case.p("udp_port", 53);
            if self.case.p("ids", 0) != 0 {
                if !ours && data.len() >= 12 && data[2] & 0x80 == 0 && self.transcript.len() < 40 {
                    self.transcript.push(format!("{}", u16::from_be_bytes([data[0], data[1]])));
                }
                return;
            }
            let mut d = data.to_vec();
            if !ours {
                d.iter_mut().take(2).for_each(|b| *b = 0);
            }
            let l = if ours { src.port.to_string() } else { "some port".to_string() };
            let now = self.now;
            self.transcript.push(format!("at {} ns UDP from {} to {}: {}", now, l, dst, crate::worlds::clients::hex(&d)));
        }
    }
    pub fn wire_tcp(&mut self, conn: usize, end: usize, data: &[u8]) {
        if self.quiet_io && self.case.p("ids", 0) == 0 {
            let off = self.written.entry(conn).or_insert(0);
            let mut d = data.to_vec();
            if end == 0 {
                for i in 2..4 {
                    if i >= *off && i - *off < d.len() {
                        d[i - *off] = 0;
                    }
                }
            }
            *off += d.len();
            let now = self.now;
            self.transcript.push(format!("at {} ns TCP connection {}: {}", now, conn, crate::worlds::clients::hex(&d)));
        }
    }
    pub fn wire_event(&mut self, what: &str, n: u64) {
        if self.quiet_io && self.case.p("ids", 0) == 0 {
            let now = self.now;
            self.transcript.push(format!("at {} ns {} {}", now, what, n));
        }
    }

    pub fn new(case: Case) -> Kernel {
        Kernel {
            now: 0,
            seq: 0,
            tick: case.p("tick_ns", 1000) as u64,
            threads: vec![],
            runq: VecDeque::new(),
            cur: usize::MAX,
            events: BTreeMap::new(),
            ch: Chooser::new(&case),
            net: Net::new(&case),
            fs: Fs::default(),
            world: None,
            exited: None,
            aborted: false,
            ended: None,
            stop: false,
            horizon: case.p("horizon_ms", 600_000) as u64 * MS,
            steps: 0,
            max_steps: case.p("max_steps", 1_500_000) as u64,
            switches: 0,
            hash: case.seed,
            sched_hash: 0,
            violations: vec![],
            probes: BTreeMap::new(),
            panics: vec![],
            ent: Rng::new(hash2(case.seed, 0xE27 + (case.p("ids", 0) * case.p("variant", 0)) as u64)),
            wall_off: 0,
            wall_jumps: case.p("wall_jumps", 0) != 0,
            spawned: 0,
            total_stall: 0,
            stalls: vec![],
            log_on: false,
            log: vec![],
            quiet_io: case.p("variants", 1) > 1,
            written: BTreeMap::new(),
            case,
            nontrivial: false,
            in_alloc_preempt: false,
            slow_send: BTreeMap::new(),
            transcript: vec![],
        }
    }

    pub fn mixin(&mut self, a: u64, b: u64) {
        self.hash = mix(self.hash ^ a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.rotate_left(17) ^ self.now);
    }

    pub fn logf(&mut self, f: impl FnOnce() -> String) {
        if self.log_on {
            let s = f();
            let now = self.now;
            if self.log.len() < 20_000 {
                self.log.push(format!("{:>14.6} ms  {}", now as f64 / 1e6, s));
            }
        }
    }

    pub fn probe(&mut self, name: &str) {
        match self.probes.get_mut(name) {
            Some(v) => *v += 1,
            None => {
                self.probes.insert(name.to_string(), 1);
            }
        }
    }

    pub fn violation(&mut self, prop: &str, class: &str, msg: String) {
        if self.violations.iter().filter(|v| v.prop == prop && v.class == class).count() >= 2 {
            return;
        }
        self.logf(|| format!("VIOLATION {} {}: {}", prop, class, msg));
        self.violations.push(Violation {
            prop: prop.into(),
            class: class.into(),
            msg,
        });
    }
    /// Reports the same observation under several properties.
    pub fn violation_all(&mut self, props: &[&str], class: &str, msg: String) {
        for p in props {
            self.violation(p, class, msg.clone());
        }
    }

    pub fn choose(&mut self, kind: Kd, n: u64) -> u64 {
        let v = self.ch.choose(kind, n);
        if v != 0 {
            self.mixin(kind as u64 + 1000, v);
            if KIND_FAULT[kind as usize] {
                let cur = self.cur;
                self.logf(|| format!("fault {:?} value {} (thread {})", kind, v, cur));
            }
        }
        v
    }

    pub fn post(&mut self, at: u64, ev: Ev) {
        self.seq += 1;
        let key = (at.max(self.now), self.seq);
        self.events.insert(key, ev);
    }
    pub fn timer(&mut self, at: u64, token: u64) {
        self.post(at, Ev::Timer(token));
    }

    pub fn printed(&mut self, fd: i32, data: &[u8]) {
        self.try_world(|w, k| w.output(k, fd, data));
    }
    pub fn with_world<R>(&mut self, f: impl FnOnce(&mut dyn World, &mut Kernel) -> R) -> R {
        let mut w = self.world.take().expect("world re-entered");
        let r = f(&mut *w, self);
        self.world = Some(w);
        r
    }

    /// As with_world, but does nothing when called from the world itself.
    pub fn try_world(&mut self, f: impl FnOnce(&mut dyn World, &mut Kernel)) {
        if let Some(mut w) = self.world.take() {
            f(&mut *w, self);
            self.world = Some(w);
        }
    }

    // ----- threads -----

    pub fn add_thread(&mut self) -> Tid {
        let tid = self.threads.len();
        self.threads.push(Thread {
            baton: Box::new(Baton::new()),
            state: TState::Runnable,
            wait: Wait::None,
            reason: 0,
            gen: 0,
            pthread: 0,
            joined: false,
            stalled: 0,
        });
        self.runq.push_back(tid);
        tid
    }

    /// Hands control to the scheduler and returns when this thread is picked again.
    fn switch(&mut self) {
        let tid = self.cur;
        let b: *const Baton = &*self.threads[tid].baton;
        SCHED.give();
        unsafe { (*b).take() };
    }

    pub fn yield_back(&mut self) {
        let tid = self.cur;
        self.threads[tid].state = TState::Runnable;
        self.runq.push_back(tid);
        self.switch();
    }

    pub fn yield_front(&mut self) {
        let tid = self.cur;
        self.threads[tid].state = TState::Runnable;
        self.runq.push_front(tid);
        self.switch();
    }

    /// Blocks the calling thread until woken or until the deadline.
    pub fn block(&mut self, wait: Wait, deadline: Option<u64>) -> i32 {
        let tid = self.cur;
        let t = &mut self.threads[tid];
        t.state = TState::Blocked;
        t.wait = wait;
        t.gen += 1;
        let gen = t.gen;
        if let Some(d) = deadline {
            self.post(d, Ev::ThreadTimeout(tid, gen));
        }
        self.switch();
        self.threads[tid].reason
    }

    pub fn wake(&mut self, tid: Tid, reason: i32) {
        let t = &mut self.threads[tid];
        if t.state == TState::Blocked {
            t.state = TState::Runnable;
            t.wait = Wait::None;
            t.reason = reason;
            t.gen += 1;
            self.runq.push_back(tid);
        }
    }

    pub fn wake_sock(&mut self, sock: usize) {
        for tid in 0..self.threads.len() {
            let w = self.threads[tid].wait;
            if self.threads[tid].state == TState::Blocked && (w == Wait::Sock(sock) || w == Wait::Poll) {
                self.wake(tid, R_WOKEN);
            }
        }
    }

    /// Every interposed call passes through here first.
    pub fn enter(&mut self, point: u64) {
        self.steps += 1;
        self.now += self.tick;
        let cur = self.cur as u64;
        self.mixin(point, cur);
        if self.steps > self.max_steps {
            self.end("steps");
        }
        if let Some((&(t, _), _)) = self.events.first_key_value() {
            if t <= self.now {
                self.yield_front();
            }
        }
        if self.choose(Kd::Preempt, 2) == 1 {
            self.yield_back();
        }
        let s = self.choose(Kd::Stall, 5);
        if s > 0 {
            let d = [0, MS, 30 * MS, 400 * MS, 2500 * MS][s as usize];
            self.stall_current(d);
        }
        if self.wall_jumps {
            let j = self.choose(Kd::ClockJump, 6);
            if j > 0 {
                self.wall_off += [0i64, 3_600, -3_600, 86_400 * 365, -86_400 * 365, 30][j as usize] * SEC as i64;
            }
        }
    }

    fn stall_current(&mut self, d: u64) {
        let tid = self.cur;
        self.total_stall += d;
        self.stalls.push((self.now, d));
        self.threads[tid].stalled += d;
        self.with_world(|w, k| w.fault(k, Kd::Stall, tid, FaultPeer::None));
        let dl = self.now + d;
        self.block(Wait::Sleep, Some(dl));
    }

    /// Injected stall time (summed over threads) that overlaps an interval.
    pub fn stalled_in(&self, a: u64, b: u64) -> u64 {
        self.stalls.iter().map(|(s, d)| (s + d).min(b).saturating_sub((*s).max(a))).sum()
    }

    /// Called for every allocation made by simulated code.
    pub fn alloc_point(&mut self) {
        if self.choose(Kd::AllocPreempt, 2) == 1 {
            let cur = self.cur as u64;
            self.mixin(777, cur);
            self.now += self.tick;
            self.yield_back();
        }
    }

    /// Ends the run from inside a simulated thread; never returns.
    pub fn end(&mut self, why: &str) -> ! {
        if self.ended.is_none() {
            self.ended = Some(why.to_string());
        }
        let tid = self.cur;
        self.threads[tid].state = TState::Dead;
        self.switch();
        loop {
            unsafe { libc::pause() };
        }
    }

    /// The simulated process exits; the calling thread never continues.
    pub fn process_exit(&mut self, code: i32, aborted: bool) -> ! {
        if self.exited.is_none() {
            self.exited = Some((code, self.now));
            self.aborted = aborted;
            self.wire_event("exit", code as u64);
        }
        let tid = self.cur;
        self.threads[tid].state = TState::Dead;
        self.switch();
        loop {
            unsafe { libc::pause() };
        }
    }

    pub fn thread_finished(&mut self) {
        let tid = self.cur;
        self.threads[tid].state = TState::Finished;
        for j in 0..self.threads.len() {
            if self.threads[j].state == TState::Blocked && self.threads[j].wait == Wait::Join(tid) {
                self.wake(j, R_WOKEN);
            }
        }
        if tid == 0 && self.exited.is_none() {
            // Main returned without going through exit(): same thing.
            self.exited = Some((0, self.now));
            self.wire_event("exit", 0);
        }
        set_sim_tid(-2);
        SCHED.give();
    }

    // ----- futexes -----

    pub fn futex_wait(&mut self, addr: usize, val: u32, mask: u32, deadline: Option<u64>) -> Result<(), i32> {
        let cur = unsafe { (*(addr as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) };
        if cur != val {
            return Err(libc::EAGAIN);
        }
        if self.choose(Kd::Spurious, 2) == 1 {
            self.yield_back();
            return Ok(());
        }
        match self.block(Wait::Futex { addr, mask }, deadline) {
            R_TIMEOUT => Err(libc::ETIMEDOUT),
            _ => Ok(()),
        }
    }

    pub fn futex_wake(&mut self, addr: usize, n: u32, mask: u32) -> u32 {
        let mut woken = 0;
        while woken < n {
            let mut cand: Vec<(u64, Tid)> = vec![];
            for (tid, t) in self.threads.iter().enumerate() {
                if let (TState::Blocked, Wait::Futex { addr: a, mask: m }) = (t.state, t.wait) {
                    if a == addr && m & mask != 0 {
                        cand.push((t.gen, tid));
                    }
                }
            }
            if cand.is_empty() {
                break;
            }
            let i = self.choose(Kd::WakeOrder, cand.len() as u64) as usize;
            self.wake(cand[i].1, R_WOKEN);
            woken += 1;
        }
        woken
    }

    // ----- scheduler -----

    fn dispatch(&mut self, ev: Ev) {
        match ev {
            Ev::ThreadTimeout(tid, gen) => {
                if self.threads[tid].state == TState::Blocked && self.threads[tid].gen == gen {
                    self.mixin(900, tid as u64);
                    self.wake(tid, R_TIMEOUT);
                }
            }
            Ev::Timer(tok) => {
                self.mixin(901, tok);
                self.with_world(|w, k| w.timer(k, tok));
            }
            Ev::Udp { src, dst, data } => {
                self.mixin(902, hash_bytes(dst.port as u64, &data));
                self.udp_deliver(src, dst, data);
            }
            Ev::Tcp { conn, to, seg } => {
                self.mixin(903, conn as u64);
                self.tcp_deliver(conn, to, seg);
            }
            Ev::TcpTimeout { conn } => self.tcp_connect_timeout(conn),
            Ev::Consume { conn, end } => self.world_consume(conn, end),
        }
    }

    /// Runs the simulation to its end. Called on the (only) non-simulated thread.
    pub fn run(&mut self) {
        self.with_world(|w, k| w.start(k));
        let mut exit_seen = false;
        loop {
            if self.ended.is_some() {
                break;
            }
            if self.exited.is_some() && !exit_seen {
                exit_seen = true;
                self.runq.clear();
                for t in self.threads.iter_mut() {
                    if t.state != TState::Finished {
                        t.state = TState::Dead;
                    }
                }
                let code = self.exited.unwrap().0;
                self.logf(|| format!("process exited with status {}", code));
                self.close_all();
                self.with_world(|w, k| w.exited(k, code));
            }
            while let Some((&(t, s), _)) = self.events.first_key_value() {
                if t > self.now || self.stop {
                    break;
                }
                let ev = self.events.remove(&(t, s)).unwrap();
                self.dispatch(ev);
            }
            if self.stop || self.now > self.horizon {
                break;
            }
            if !self.runq.is_empty() {
                let n = self.runq.len() as u64;
                let i = self.choose(Kd::Pick, n) as usize;
                let tid = self.runq.remove(i).unwrap();
                self.threads[tid].state = TState::Running;
                self.cur = tid;
                self.switches += 1;
                self.mixin(904, tid as u64);
                self.sched_hash = mix(self.sched_hash ^ (tid as u64 + 1));
                let b: *const Baton = &*self.threads[tid].baton;
                unsafe { (*b).give() };
                SCHED.take();
                self.cur = usize::MAX;
                continue;
            }
            match self.events.first_key_value() {
                Some((&(t, _), _)) => self.now = self.now.max(t),
                None => break,
            }
        }
        self.with_world(|w, k| w.finish(k));
    }
}

/// Starts a simulated thread's life: waits for its first turn.
pub fn thread_begin(tid: Tid) {
    set_sim_tid(tid as i32);
    let b: *const Baton = &*kernel().threads[tid].baton;
    unsafe { (*b).take() };
}

/// Emits an event of a library-level scenario to the world.
pub fn lib_event(kind: &'static str, a: u64, b: u64, c: u64, s: String) {
    let _g = KGuard::new();
    let k = kernel();
    let tid = k.cur;
    let ev = LibEvent { tid, kind, a, b, c, s };
    k.seq += 1;
    k.mixin(hash_bytes(1, kind.as_bytes()), hash2(a, hash2(b, c)));
    k.logf(|| format!("{:?}", ev));
    k.with_world(|w, k| w.lib_event(k, &ev));
}
