//! Executes one case: forks a child process that hosts the simulation.
use crate::case::*;
use crate::kernel::*;
use crate::raw::*;
use crate::shim;
use crate::worlds;
use libc::c_void;
use std::collections::BTreeMap;

/// Supplied by the binary: what the first simulated thread runs.
pub type Body = fn(&Case);
pub static mut BODY: Option<Body> = None;

extern "C" fn main_thread(_: *mut c_void) -> *mut c_void {
    let case = {
        let _g = KGuard::new();
        kernel().case.clone()
    };
    let body = unsafe { BODY.unwrap() };
    let r = std::panic::catch_unwind(|| body(&case));
    let _g = KGuard::new();
    std::mem::forget(case);
    if r.is_err() {
        std::mem::forget(r);
        // What the Rust runtime does when main panics.
        kernel().process_exit(101, false);
    }
    std::ptr::null_mut()
}

/// Runs a case in this process (which is not usable for a second run).
fn simulate(case: &Case, log: bool) -> RunResult {
    unsafe {
        K = Box::into_raw(Box::new(Kernel::new(case.clone())));
    }
    let k = kernel();
    k.log_on = log;
    k.panics.reserve(256);
    let w = worlds::make(case, k);
    k.world = Some(w);
    // Where the output goes does not decide whether it is coloured.
    for (v, on) in [("CLICOLOR_FORCE", 1), ("NO_COLOR", 0)] {
        if case.p("force_color", 0) == on {
            std::env::set_var(v, "1");
        } else {
            std::env::remove_var(v);
        }
    }
    shim::spawn_main(main_thread);
    k.run();
    let mut faults = BTreeMap::new();
    for (i, n) in KIND_NAMES.iter().enumerate() {
        if k.ch.fired[i] > 0 {
            faults.insert(n.to_string(), k.ch.fired[i]);
        }
    }
    for (n, v) in &k.net.counts {
        faults.insert(format!("net:{}", n), *v);
    }
    let end = match &k.ended {
        Some(e) if e == "steps" => "livelock".to_string(),
        Some(e) => e.clone(),
        None => "ok".to_string(),
    };
    RunResult {
        end,
        violations: k.violations.clone(),
        devs: k.ch.devs.iter().map(|(i, a, b)| (KIND_NAMES[*i].to_string(), *a, *b)).collect(),
        trace_hash: k.hash,
        sched_hash: k.sched_hash,
        sim_ns: k.now,
        steps: k.steps,
        switches: k.switches,
        faults,
        probes: k.probes.clone(),
        nontrivial: k.nontrivial,
        panics: k.panics.iter().take(12).map(|(t, tid, m)| format!("{:.3} ms thread {}: {}", *t as f64 / 1e6, tid, m)).collect(),
        note: k.exited.map(|e| format!("process exit status {} at {:.3} ms", e.0, e.1 as f64 / 1e6)).unwrap_or_default(),
        case: None,
        log: std::mem::take(&mut k.log),
        transcript: std::mem::take(&mut k.transcript),
    }
}

pub const CPU_LIMIT_S: u64 = 12;
const WALL_LIMIT_MS: i32 = 90_000;

/// Forks, simulates in the child and collects its result.
pub fn run_case(case: &Case, log: bool, cpu: usize) -> RunResult {
    let n = case.p("variants", 1).max(1);
    let mut first: Option<RunResult> = None;
    for v in 0..n {
        let mut c = case.clone();
        c.set("variant", v);
        let r = run_one(&c, log, cpu);
        match &mut first {
            None => first = Some(r),
            Some(f) => {
                f.steps += r.steps;
                f.sim_ns += r.sim_ns;
                f.violations.extend(r.violations.clone());
                f.trace_hash ^= r.trace_hash;
                if f.end == "ok" && r.end != "ok" {
                    f.end = r.end.clone();
                }
                if log {
                    f.log.push(format!("---- variant {} ----", v));
                    f.log.extend(r.log.clone());
                }
                f.panics.extend(r.panics.clone());
                // The choices are the same in all variants, but some make more of them.
                let known: std::collections::BTreeSet<_> = f.devs.iter().map(|d| (d.0.clone(), d.1)).collect();
                f.devs.extend(r.devs.iter().filter(|d| !known.contains(&(d.0.clone(), d.1))).cloned());
                if case.p("ids", 0) != 0 {
                    // Other random numbers must mean other IDs.
                    let n = f.transcript.len().min(r.transcript.len());
                    let eq = (0..n).filter(|i| f.transcript[*i] == r.transcript[*i]).count();
                    f.nontrivial = n >= 4;
                    if n >= 4 && eq * 2 > n {
                        f.violations.push(Violation {
                            prop: "C13".into(),
                            class: "predictable-ids".into(),
                            msg: format!("the IDs of upstream queries do not depend on the random numbers of the system: {} of the first {} are the same with others: {:?}", eq, n, &f.transcript[..n.min(8)]),
                        });
                    }
                } else if let Some(p) = worlds::diff_prop(case) {
                    let (a, b) = (&f.transcript, &r.transcript);
                    f.nontrivial = !a.is_empty();
                    let cut = |r: &RunResult| matches!(r.end.as_str(), "harness" | "livelock");
                    if a != b && !cut(f) && !cut(&r) {
                        let i = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)).unwrap_or(0);
                        let none = "(nothing more)".to_string();
                        f.violations.push(Violation {
                            prop: p.to_string(),
                            class: "behaviour-differs".into(),
                            msg: format!(
                                "variant 0 ({}): {} / variant {} ({}): {}",
                                worlds::variant_name(case, 0), a.get(i).unwrap_or(&none), v, worlds::variant_name(case, v), b.get(i).unwrap_or(&none)
                            ),
                        });
                    }
                }
            }
        }
    }
    let mut r = first.unwrap();
    r.transcript.clear();
    r
}

fn run_one(case: &Case, log: bool, cpu: usize) -> RunResult {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            return RunResult { end: "harness".into(), note: "pipe failed".into(), ..Default::default() };
        }
        if DEVBUF.is_null() {
            let p = libc::mmap(std::ptr::null_mut(), 8 * (1 + 3 * DEVBUF_CAP), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            if p != libc::MAP_FAILED {
                DEVBUF = p as *mut u64;
            }
        }
        if !DEVBUF.is_null() {
            *DEVBUF = 0;
        }
        let pid = libc::fork();
        if pid < 0 {
            return RunResult { end: "harness".into(), note: "fork failed".into(), ..Default::default() };
        }
        if pid == 0 {
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
            libc::CPU_SET(cpu % n, &mut set);
            libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
            let lim = libc::rlimit { rlim_cur: CPU_LIMIT_S, rlim_max: CPU_LIMIT_S + 2 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            // One arena is enough for threads that run one at a time.
            libc::mallopt(libc::M_ARENA_MAX, 1);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let r = simulate(case, log);
            let mut out = serde_json::to_vec(&r).unwrap_or_default();
            out.push(b'\n');
            let mut off = 0;
            while off < out.len() {
                let n = sys6(libc::SYS_write, fds[1] as i64, out[off..].as_ptr() as i64, (out.len() - off) as i64, 0, 0, 0);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut buf = Vec::new();
        let t0 = mono_ns();
        let mut timed_out = false;
        loop {
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let left = WALL_LIMIT_MS as i64 - ((mono_ns() - t0) / MS) as i64;
            let r = if left <= 0 { 0 } else { libc::poll(&mut p, 1, left as i32) };
            if r == 0 {
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            let mut b = [0u8; 65536];
            let n = sys6(libc::SYS_read, fds[0] as i64, b.as_mut_ptr() as i64, b.len() as i64, 0, 0, 0);
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&b[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if let Ok(r) = serde_json::from_slice::<RunResult>(&buf) {
            return r;
        }
        let (end, note) = if timed_out {
            ("harness".to_string(), "no progress in real time".to_string())
        } else if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            if s == libc::SIGXCPU {
                ("hang".to_string(), "endless computation".to_string())
            } else if s == libc::SIGKILL {
                ("harness".to_string(), "killed".to_string())
            } else {
                ("crash".to_string(), format!("killed by signal {}", s))
            }
        } else {
            ("harness".to_string(), format!("child ended with status {} and no result ({} bytes)", st, buf.len()))
        };
        let mut devs = vec![];
        if !DEVBUF.is_null() {
            for i in 0..*DEVBUF as usize {
                let p = DEVBUF.add(1 + 3 * i);
                if let Some(n) = KIND_NAMES.get(*p as usize) {
                    devs.push((n.to_string(), *p.add(1), *p.add(2)));
                }
            }
        }
        RunResult { end, note, devs, ..Default::default() }
    }
}
