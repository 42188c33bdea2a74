//! Runs, shards, minimises, replays, reports.
use serde::{Deserialize, Serialize};
use simrt::rng::{mix, Rng};
use simrt::shm::{self, Decision, SHM};
use simrt::{sys, SimConfig};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;

#[derive(Clone, Copy)]
pub struct GenCtx {
    pub thorough: bool,
    pub idx: u64,
}

/// One property, with its case type erased to JSON.
#[derive(Clone, Copy)]
pub struct Entry {
    pub id: &'static str,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub gen: fn(&mut Rng, GenCtx) -> String,
    pub run: fn(&str),
    pub valid: fn(&str) -> bool,
    /// what a case is, what makes a run non-trivial
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub probes: &'static [&'static str],
}

pub trait Property {
    type Case: Serialize + for<'a> Deserialize<'a>;
    fn gen(r: &mut Rng, c: GenCtx) -> Self::Case;
    fn valid(c: &Self::Case) -> bool;
    fn run(c: Self::Case);
}
pub fn gen_of<P: Property>(r: &mut Rng, c: GenCtx) -> String {
    serde_json::to_string(&P::gen(r, c)).unwrap()
}
pub fn run_of<P: Property>(s: &str) {
    let c: P::Case = serde_json::from_str(s).expect("case does not parse");
    P::run(c)
}
pub fn valid_of<P: Property>(s: &str) -> bool {
    match serde_json::from_str::<P::Case>(s) {
        Ok(c) => P::valid(&c),
        Err(_) => false,
    }
}

// ------------------------------------------------------------------------------------------------ one run
static mut CASE: Option<(Entry, String)> = None;

fn body() {
    #[allow(static_mut_refs)]
    let (e, case) = unsafe { CASE.clone().unwrap() };
    let r = std::panic::catch_unwind(|| (e.run)(&case));
    if let Err(p) = r {
        let ps = simrt::take_panics();
        let msg = ps.last().map(|x| x.1.clone()).unwrap_or_else(|| common_payload(&*p));
        let loc = msg.rsplit(" @ ").next().unwrap_or("").to_string();
        let file = short_loc(&loc);
        simrt::fail(&format!("unexpected-panic:{}", file), &msg);
    }
    simrt::finish();
}
/// file name without directories of the registry or line numbers: stable under edits elsewhere in the file
pub fn short_loc(loc: &str) -> String {
    let f = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    let f = f.rsplit("registry/src/").next().unwrap_or(f);
    let f = match f.find("index.crates.io") {
        Some(_) => f.splitn(2, '/').nth(1).unwrap_or(f),
        None => f,
    };
    f.trim_start_matches("/repo/").to_string()
}
fn common_payload(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

pub enum Sched<'a> {
    /// everything from the seed
    Seed(u64),
    /// recorded decisions
    Replay(&'a [Decision], u64),
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub ok: bool,
    pub class: String,
    pub msg: String,
    pub trace_hash: u64,
    pub event_hash: u64,
    pub steps: u64,
    pub harness_error: bool,
}

/// Executes one run in a forked process. `case` None: generate it from (seed, idx).
pub fn exec(e: &Entry, case: Option<&str>, gen: (u64, u64, bool), sched: Sched, wall_limit: u32) -> Outcome {
    unsafe {
        shm::reset(SHM);
        let pid = libc::fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(wall_limit);
            let case: String = match case {
                Some(c) => c.to_string(),
                None => {
                    let mut r = Rng::new(mix(mix(gen.0, gen.1), 0xCA5E));
                    (e.gen)(&mut r, GenCtx { thorough: gen.2, idx: gen.1 })
                }
            };
            let s = &mut *SHM;
            let b = case.as_bytes();
            if b.len() > s.case.len() {
                sys::real_write(2, b"case too large\n");
                sys::exit_now(92);
            }
            s.case[..b.len()].copy_from_slice(b);
            s.case_len = b.len() as u64;
            s.case_hash = hash_bytes(b);
            if !(e.valid)(&case) {
                s.state = 4;
                sys::exit_now(0);
            }
            CASE = Some((*e, case));
            let mut cfg = match sched {
                Sched::Seed(x) => SimConfig::from_seed(x),
                Sched::Replay(d, h) => {
                    simrt::sched::load_replay(d);
                    SimConfig::replaying(h)
                }
            };
            if e.id == "E01" {
                // complete analyses, a dozen and more in a run: 150 million is not far from the longest
                cfg.max_steps *= 4;
            }
            s.policy = policy_no(&cfg.policy);
            simrt::start(cfg, body);
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
            if r < 0 && *libc::__errno_location() != libc::EINTR {
                break;
            }
        }
        let s = &*SHM;
        let mut o = Outcome { ok: false, class: String::new(), msg: String::new(), trace_hash: s.trace_hash, event_hash: s.event_hash, steps: s.steps, harness_error: false };
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            o.class = if sig == libc::SIGALRM { "hang".into() } else { format!("crash:signal{}", sig) };
            o.msg = format!("the process died with signal {} in state {}", sig, s.state);
            o.harness_error = sig == libc::SIGKILL;
        } else if s.state == 2 || s.state == 4 {
            o.ok = true;
            o.class = if s.state == 4 { "invalid".into() } else { "ok".into() };
        } else if s.state == 3 {
            o.class = String::from_utf8_lossy(&s.class[..s.class_len as usize]).into();
            o.msg = String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into();
            if o.class.starts_with("harness") {
                o.harness_error = true;
            }
        } else {
            o.class = format!("exit:{}", libc::WEXITSTATUS(st));
            o.msg = format!("the process exited in state {}", s.state);
            o.harness_error = true;
        }
        o
    }
}
fn policy_no(p: &simrt::Policy) -> u64 {
    use simrt::Policy::*;
    match p {
        Walk { .. } => 0,
        Address { .. } => 1,
        Pct { .. } => 2,
        Burst { .. } => 3,
        Coarse => 4,
    }
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
fn decisions() -> Vec<Decision> {
    unsafe { (&(*SHM).decisions)[..(*SHM).n_decisions as usize].to_vec() }
}
fn case_text() -> String {
    unsafe { String::from_utf8_lossy(&(&(*SHM).case)[..(*SHM).case_len as usize]).into() }
}
fn sched_seed(seed: u64, idx: u64) -> u64 {
    mix(mix(seed, idx), 0x5EED)
}
fn hash_seed_of(sched: u64) -> u64 {
    SimConfig::from_seed(sched).hash_seed
}

// ------------------------------------------------------------------------------------------------ known findings
pub struct Known {
    pub property: String,
    pub key: String,
    pub what: String,
}
fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
pub fn load_known() -> Vec<Known> {
    let mut v = Vec::new();
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    for l in t.lines() {
        // KNOWN-FINDING: property=<id> key=<class> <what fails>
        if let Some(r) = l.strip_prefix("KNOWN-FINDING: property=") {
            let mut it = r.splitn(3, ' ');
            let p = it.next().unwrap_or("").to_string();
            let k = it.next().unwrap_or("").trim_start_matches("key=").to_string();
            let w = it.next().unwrap_or("").to_string();
            v.push(Known { property: p, key: k, what: w });
        }
    }
    v
}

// ------------------------------------------------------------------------------------------------ shards
const HCAP: usize = 1 << 21;
#[repr(C)]
struct ShardOut {
    done: u64,
    runs: u64,
    invalid: u64,
    nontrivial: u64,
    fail_idx: u64, // idx+1
    flaky: u64,
    harness_errors: u64,
    steps: u64,
    switches: u64,
    preempts: u64,
    forced: u64,
    threads: u64,
    sim_ns: u64,
    events: u64,
    lib_calls: u64,
    max_steps: u64,
    policies: [u64; 8],
    faults: [u64; shm::N_FK],
    fault_runs: [u64; shm::N_FK],
    probes: [u64; shm::N_PROBES],
    nknown: u64,
    known: [u64; 64],
    nh: u64,
    traces: [u64; HCAP],
    eventh: [u64; HCAP],
    cases: [u64; HCAP],
}

#[derive(Serialize, Deserialize)]
struct ReplayFile {
    property: String,
    seed: u64,
    index: u64,
    class: String,
    message: String,
    event_hash: u64,
    hash_seed: u64,
    case: serde_json::Value,
    /// [kind, at, value]; kinds: 0 preempt at step, 1 scheduling choice, 2 wake order, 3 spurious wake-up,
    /// 4 clock jump, 5 I/O fault
    decisions: Vec<(u64, u64, u64)>,
    history: Vec<String>,
}

fn ncpu() -> usize {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) == 0 {
            let n = (0..libc::CPU_SETSIZE as usize).filter(|&i| libc::CPU_ISSET(i, &set)).count();
            n.clamp(1, 64)
        } else {
            4
        }
    }
}
fn pin(k: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|&i| libc::CPU_ISSET(i, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[k % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

const WALL: u32 = 100;

unsafe fn shard(e: &Entry, k: usize, n: usize, seed: u64, runs: u64, thorough: bool, out: *mut ShardOut, min_fail: *mut u64, deadline_ns: u64, known: &[Known]) {
    pin(k);
    SHM = shm::create();
    let o = &mut *out;
    let mut idx = k as u64;
    while idx < runs {
        if sys::real_now_ns() > deadline_ns {
            break;
        }
        if idx >= std::ptr::read_volatile(min_fail) {
            break;
        }
        let mut r = exec(e, None, (seed, idx, thorough), Sched::Seed(sched_seed(seed, idx)), WALL);
        if !r.ok {
            // confirm in another process
            let first = r.clone();
            let mut confirmed = false;
            for _ in 0..2 {
                r = exec(e, None, (seed, idx, thorough), Sched::Seed(sched_seed(seed, idx)), WALL);
                if !r.ok && r.class == first.class && !r.harness_error {
                    confirmed = true;
                    break;
                }
            }
            if !confirmed {
                if first.harness_error {
                    o.harness_errors += 1;
                } else {
                    o.flaky += 1;
                }
                eprintln!("dst: {} run {} not reproduced: {} {} then {} {}", e.id, idx, first.class, first.msg, r.class, r.msg);
                idx += n as u64;
                continue;
            }
            if let Some(i) = known.iter().position(|x| x.property == e.id && x.key == r.class) {
                o.known[i] += 1;
                o.nknown += 1;
            } else {
                o.fail_idx = idx + 1;
                let m = std::ptr::read_volatile(min_fail);
                if idx < m {
                    std::ptr::write_volatile(min_fail, idx);
                }
                break;
            }
        }
        let s = &*SHM;
        o.runs += 1;
        if r.class == "invalid" {
            o.invalid += 1;
        }
        o.steps += s.steps;
        o.max_steps = o.max_steps.max(s.steps);
        o.switches += s.switches;
        o.preempts += s.preempts;
        o.forced += s.forced;
        o.threads += s.threads;
        o.sim_ns += s.sim_ns;
        o.events += s.events;
        o.lib_calls += s.lib_calls;
        o.policies[s.policy as usize & 7] += 1;
        for i in 0..shm::N_FK {
            o.faults[i] += s.faults[i];
            o.fault_runs[i] += (s.faults[i] > 0) as u64;
        }
        for i in 0..shm::N_PROBES {
            o.probes[i] += s.probes[i];
        }
        if s.nontrivial != 0 && (o.nh as usize) < HCAP {
            o.nontrivial += 1;
            let h = o.nh as usize;
            o.traces[h] = mix(mix(s.trace_hash, s.case_hash), s.event_hash);
            o.eventh[h] = mix(s.event_hash, s.case_hash);
            o.cases[h] = s.case_hash;
            o.nh += 1;
        }
        idx += n as u64;
    }
    o.done = 1;
}

pub fn main() {
    simrt::set_panic_capture();
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "check" => check(&args),
        "replay" => replay(&args),
        "run" => run_one(&args),
        "determinism" => determinism(&args),
        "survey" => survey(&args),
        "list" => {
            for e in crate::props::all() {
                println!("{}", e.id);
            }
        }
        _ => {
            eprintln!("usage: dst check ID | replay FILE | run ID SEED IDX | determinism ID N | list");
            std::process::exit(3);
        }
    }
}
fn entry(id: &str) -> Entry {
    match crate::props::all().into_iter().find(|e| e.id == id) {
        Some(e) => e,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(3);
        }
    }
}
fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn run_one(a: &[String]) {
    let e = entry(&a[2]);
    let seed: u64 = a[3].parse().unwrap();
    let idx: u64 = a[4].parse().unwrap();
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    pin(0);
    unsafe { SHM = shm::create() };
    let t = sys::real_now_ns();
    let o = exec(&e, None, (seed, idx, thorough), Sched::Seed(sched_seed(seed, idx)), WALL);
    println!("case {}", case_text());
    println!("config {:?}", SimConfig::from_seed(sched_seed(seed, idx)));
    println!("{:?} in {} us", o, (sys::real_now_ns() - t) / 1000);
    unsafe {
        let s = &*SHM;
        println!("steps {} switches {} preempts {} forced {} threads {} events {} nontrivial {} decisions {}", s.steps, s.switches, s.preempts, s.forced, s.threads, s.events, s.nontrivial, s.n_decisions);
        println!("faults {:?}", named_faults(&s.faults));
        println!("probes {:?}", &s.probes[..e.probes.len()]);
    }
}
/// Counts the violation classes met in N runs, with the first case of each.
fn survey(a: &[String]) {
    let e = entry(&a[2]);
    let n: u64 = a[3].parse().unwrap();
    let seed = env_u64("VERIF_SEED", 1);
    pin(env_u64("VERIF_CPU", 0) as usize);
    unsafe { SHM = shm::create() };
    let mut classes: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut top = (0, 0, 0u128);
    for i in 0..n {
        let t = std::time::Instant::now();
        let o = exec(&e, None, (seed, i, false), Sched::Seed(sched_seed(seed, i)), WALL);
        if o.steps > top.0 {
            top = (o.steps, i, t.elapsed().as_millis());
        }
        if !o.ok {
            classes.entry(o.class.clone()).or_insert((0, i, o.msg.clone())).0 += 1;
        }
    }
    for (c, (k, i, m)) in classes {
        println!("{:6} x {}  first at {}: {}", k, c, i, m.chars().take(300).collect::<String>());
    }
    if std::env::var("VERIF_TOP").is_ok() {
        println!("{} most accesses {} at {} ({} ms)", a[2], top.0, top.1, top.2);
    }
}
fn named_faults(f: &[u64]) -> BTreeMap<String, u64> {
    f.iter().enumerate().filter(|x| *x.1 > 0).map(|(i, n)| (simrt::FK_NAMES[i].to_string(), *n)).collect()
}

/// Runs each seed several times (also replayed from its own log) and compares everything observable.
fn determinism(a: &[String]) {
    let ids: Vec<String> = if a[2] == "all" { crate::props::all().iter().map(|e| e.id.to_string()).collect() } else { vec![a[2].clone()] };
    let n: u64 = a[3].parse().unwrap();
    let seed = env_u64("VERIF_SEED", 1);
    let mut bad = 0;
    let procs = ncpu();
    for id in ids {
        let e = entry(&id);
        let mut pids = Vec::new();
        for k in 0..procs {
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                pin(k);
                unsafe { SHM = shm::create() };
                let mut bad = 0;
                let mut i = k as u64;
                while i < n {
                    let s = sched_seed(seed, i);
                    let sig = |o: &Outcome| unsafe { (o.class.clone(), o.trace_hash, o.event_hash, o.steps, (*SHM).faults, (*SHM).case_hash, (*SHM).sim_ns) };
                    let o1 = exec(&e, None, (seed, i, false), Sched::Seed(s), WALL);
                    let s1 = sig(&o1);
                    let d = decisions();
                    let case = case_text();
                    let o2 = exec(&e, None, (seed, i, false), Sched::Seed(s), WALL);
                    if sig(&o2) != s1 {
                        println!("{} {} differs on repetition: {:?} / {:?} {:?}", id, i, o1, o2, SimConfig::from_seed(s).policy);
                        bad = 1;
                    }
                    let o3 = exec(&e, Some(&case), (seed, i, false), Sched::Replay(&d, hash_seed_of(s)), WALL);
                    if (o3.class.clone(), o3.trace_hash, o3.event_hash, o3.steps) != (o1.class.clone(), o1.trace_hash, o1.event_hash, o1.steps) {
                        println!("{} {} differs on replay: {:?} / {:?} {:?}", id, i, o1, o3, SimConfig::from_seed(s));
                        bad = 1;
                    }
                    i += procs as u64;
                }
                sys::exit_now(bad);
            }
            pids.push(pid);
        }
        let mut b = 0;
        for p in pids {
            let mut st = 0;
            unsafe { libc::waitpid(p, &mut st, 0) };
            if st != 0 {
                b += 1;
            }
        }
        println!("{}: {} seeds x 3 executions on {} processes: {}", id, n, procs, if b == 0 { "identical" } else { "DIFFERENT" });
        bad += b;
    }
    std::process::exit(if bad > 0 { 4 } else { 0 });
}

// ------------------------------------------------------------------------------------------------ minimisation
struct Mini<'a> {
    e: &'a Entry,
    class: String,
    hash_seed: u64,
    deadline: u64,
    execs: u64,
}
impl<'a> Mini<'a> {
    fn time(&self) -> bool {
        sys::real_now_ns() < self.deadline
    }
    fn try_replay(&mut self, case: &str, d: &[Decision]) -> bool {
        self.execs += 1;
        let o = exec(self.e, Some(case), (0, 0, false), Sched::Replay(d, self.hash_seed), 20);
        !o.ok && o.class == self.class
    }
    /// tries the recorded decisions, no deviations at all, and fresh schedules
    fn try_case(&mut self, case: &str, d: &[Decision], fresh: u64) -> Option<Vec<Decision>> {
        if !(self.e.valid)(case) {
            return None;
        }
        if self.try_replay(case, &[]) {
            return Some(vec![]);
        }
        if self.try_replay(case, d) {
            return Some(decisions_effective(d));
        }
        for i in 0..fresh {
            if !self.time() {
                break;
            }
            self.execs += 1;
            let s = mix(0xF4E5 + i, hash_bytes(case.as_bytes()));
            let save = self.hash_seed;
            let o = exec(self.e, Some(case), (0, 0, false), Sched::Seed(s), 20);
            if !o.ok && o.class == self.class {
                self.hash_seed = hash_seed_of(s);
                let nd = decisions();
                if self.try_replay(case, &nd) {
                    return Some(nd);
                }
                self.hash_seed = save;
            }
        }
        None
    }
    fn shrink_case(&mut self, case: String, d: Vec<Decision>) -> (String, Vec<Decision>) {
        let mut case = case;
        let mut d = d;
        let fresh = if d.is_empty() { 0 } else { 40 };
        let mut progress = true;
        while progress && self.time() {
            progress = false;
            let v: serde_json::Value = serde_json::from_str(&case).unwrap();
            let mut cands = Vec::new();
            shrink_candidates(&v, &mut Vec::new(), &mut cands);
            // biggest reductions first
            cands.sort_by_key(|c| c.1);
            for (c, _) in cands {
                if !self.time() {
                    break;
                }
                let t = serde_json::to_string(&c).unwrap();
                if t == case {
                    continue;
                }
                if let Some(nd) = self.try_case(&t, &d, fresh) {
                    case = t;
                    d = nd;
                    progress = true;
                    break;
                }
            }
        }
        (case, d)
    }
    fn shrink_decisions(&mut self, case: &str, d: Vec<Decision>) -> Vec<Decision> {
        let mut d = d;
        let mut chunk = (d.len() + 1) / 2;
        while chunk >= 1 && self.time() && !d.is_empty() {
            let mut i = 0;
            let mut any = false;
            while i < d.len() && self.time() {
                let mut c = d.clone();
                let end = (i + chunk).min(c.len());
                c.drain(i..end);
                if self.try_replay(case, &c) {
                    d = c;
                    any = true;
                } else {
                    i += chunk;
                }
            }
            if !any {
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            } else {
                chunk = chunk.min((d.len() + 1) / 2).max(1);
            }
        }
        d
    }
}
fn decisions_effective(d: &[Decision]) -> Vec<Decision> {
    d.to_vec()
}

/// Generic shrinking of a JSON value: drop array elements (in chunks, then singly), move numbers towards 0,
/// booleans to false.
fn shrink_candidates(root: &serde_json::Value, path: &mut Vec<PathEl>, out: &mut Vec<(serde_json::Value, i64)>) {
    use serde_json::Value::*;
    let v = get(root, path).clone();
    let mut put = |nv: serde_json::Value, gain: i64| {
        let mut c = root.clone();
        *get_mut(&mut c, path) = nv;
        out.push((c, -gain));
    };
    match &v {
        Array(a) => {
            let n = a.len();
            let mut chunk = n;
            while chunk >= 1 {
                let mut i = 0;
                let mut count = 0;
                while i < n && count < 24 {
                    let mut b = a.clone();
                    let e = (i + chunk).min(n);
                    let gain = b[i..e].iter().map(|x| x.to_string().len() as i64).sum::<i64>() + 1;
                    b.drain(i..e);
                    put(Array(b), gain);
                    i += chunk;
                    count += 1;
                }
                chunk /= 2;
            }
        }
        Number(x) => {
            if let Some(k) = x.as_u64() {
                if k > 0 {
                    put(0.into(), 3);
                    if k > 3 {
                        put((k / 2).into(), 2);
                    }
                    if k > 1 {
                        put((k - 1).into(), 1);
                    }
                }
            } else if let Some(k) = x.as_i64() {
                put((-k).into(), 1);
                put(0.into(), 2);
            }
        }
        Bool(true) => put(Bool(false), 1),
        _ => {}
    }
    match v {
        Array(a) => {
            if a.len() <= 64 {
                for i in 0..a.len() {
                    path.push(PathEl::I(i));
                    shrink_candidates(root, path, out);
                    path.pop();
                }
            }
        }
        Object(m) => {
            for k in m.keys() {
                path.push(PathEl::K(k.clone()));
                shrink_candidates(root, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
enum PathEl {
    I(usize),
    K(String),
}
fn get<'a>(v: &'a serde_json::Value, p: &[PathEl]) -> &'a serde_json::Value {
    p.iter().fold(v, |v, e| match e {
        PathEl::I(i) => &v[*i],
        PathEl::K(k) => &v[k.as_str()],
    })
}
fn get_mut<'a>(v: &'a mut serde_json::Value, p: &[PathEl]) -> &'a mut serde_json::Value {
    p.iter().fold(v, |v, e| match e {
        PathEl::I(i) => &mut v[*i],
        PathEl::K(k) => &mut v[k.as_str()],
    })
}

fn replay(a: &[String]) {
    let t = match std::fs::read_to_string(&a[2]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {}: {}", a[2], e);
            std::process::exit(3);
        }
    };
    let f: ReplayFile = serde_json::from_str(&t).expect("replay file does not parse");
    let e = entry(&f.property);
    pin(0);
    unsafe { SHM = shm::create() };
    let d: Vec<Decision> = f.decisions.iter().map(|x| Decision { kind: x.0, at: x.1, v: x.2 }).collect();
    let case = serde_json::to_string(&f.case).unwrap();
    let o = exec(&e, Some(&case), (0, 0, false), Sched::Replay(&d, f.hash_seed), WALL);
    println!("replay of {}: {} {}", a[2], o.class, o.msg);
    if !o.ok && o.class == f.class {
        if o.event_hash != f.event_hash {
            println!("note: history hash differs from the recorded one ({:x} / {:x})", o.event_hash, f.event_hash);
        }
        println!("VIOLATION property={} replay={}", f.property, a[2]);
        std::process::exit(1);
    }
    println!("recorded violation {} does not occur", f.class);
    std::process::exit(0);
}

fn check(a: &[String]) {
    let e = entry(&a[2]);
    let seed = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if a.iter().any(|x| x == "--thorough") { "thorough".to_string() } else { tier };
    let thorough = tier == "thorough";
    let runs = env_u64("VERIF_RUNS", if thorough { e.thorough_runs } else { e.quick_runs });
    let cap_s = env_u64("VERIF_WALL", if thorough { 5400 } else { 330 });
    let t0 = sys::real_now_ns();
    println!("dst: property {} tier {} VERIF_SEED={} runs {}", e.id, tier, seed, runs);
    std::io::stdout().flush().ok();
    let known = load_known();
    let n = env_u64("VERIF_SHARDS", ncpu() as u64) as usize;
    let deadline = t0 + cap_s * 1_000_000_000;
    let (outs, min_fail) = unsafe {
        let mf = shm::map_shared(4096) as *mut u64;
        *mf = u64::MAX;
        let mut outs = Vec::new();
        let mut pids = Vec::new();
        for k in 0..n {
            let o = shm::map_shared(std::mem::size_of::<ShardOut>()) as *mut ShardOut;
            outs.push(o);
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                shard(&e, k, n, seed, runs, thorough, o, mf, deadline, &known);
                sys::exit_now(0);
            }
            pids.push(pid);
        }
        for p in pids {
            let mut st = 0;
            libc::waitpid(p, &mut st, 0);
        }
        (outs, *mf)
    };
    let search_s = (sys::real_now_ns() - t0) as f64 / 1e9;
    let os: Vec<&ShardOut> = outs.iter().map(|o| unsafe { &**o }).collect();
    let sum = |f: fn(&ShardOut) -> u64| os.iter().map(|o| f(o)).sum::<u64>();
    let total = sum(|o| o.runs);
    if os.iter().any(|o| o.done == 0) || (total == 0 && min_fail == u64::MAX) {
        eprintln!("dst: a shard did not finish");
        std::process::exit(3);
    }
    let uniq = |f: fn(&ShardOut) -> &[u64]| {
        let mut s = BTreeSet::new();
        for o in &os {
            s.extend(f(o)[..o.nh as usize].iter().copied());
        }
        s.len() as u64
    };
    let traces = uniq(|o| &o.traces);
    let evs = uniq(|o| &o.eventh);
    let cases = uniq(|o| &o.cases);
    let mut faults = [0u64; shm::N_FK];
    let mut fault_runs = [0u64; shm::N_FK];
    let mut probes = [0u64; shm::N_PROBES];
    let mut pol = [0u64; 8];
    for o in &os {
        for i in 0..shm::N_FK {
            faults[i] += o.faults[i];
            fault_runs[i] += o.fault_runs[i];
        }
        for i in 0..shm::N_PROBES {
            probes[i] += o.probes[i];
        }
        for i in 0..8 {
            pol[i] += o.policies[i];
        }
    }
    // a few actual cases of this run
    unsafe { SHM = shm::create() };
    pin(0);
    let mut samples = Vec::new();
    for i in [0u64, 7, 13] {
        if i < runs && min_fail == u64::MAX {
            exec(&e, None, (seed, i, thorough), Sched::Seed(sched_seed(seed, i)), WALL);
            let c: serde_json::Value = serde_json::from_str(&case_text()).unwrap_or(serde_json::Value::Null);
            let mut txt = c.to_string();
            if txt.len() > 1500 {
                let mut k = 1500;
                while !txt.is_char_boundary(k) {
                    k -= 1;
                }
                txt.truncate(k);
                txt.push_str("...");
            }
            let s = unsafe { &*SHM };
            samples.push(serde_json::json!({"index": i, "schedule": format!("{:?}", SimConfig::from_seed(sched_seed(seed, i)).policy), "case": txt,
                "accesses": s.steps, "baton_changes": s.switches, "decisions": s.n_decisions, "threads": s.threads}));
        }
    }
    let mut replay_path = String::new();
    let mut violation: Option<Outcome> = None;
    let mut mini_info = serde_json::Value::Null;
    if min_fail != u64::MAX {
        let ss = sched_seed(seed, min_fail);
        let o = exec(&e, None, (seed, min_fail, thorough), Sched::Seed(ss), WALL);
        let case0 = case_text();
        let d0 = decisions();
        println!("dst: violation at index {} (seed {}): {}: {}", min_fail, seed, o.class, o.msg);
        std::io::stdout().flush().ok();
        let budget = env_u64("VERIF_MINIMISE", if thorough { 180 } else { 75 });
        let mut m = Mini { e: &e, class: o.class.clone(), hash_seed: hash_seed_of(ss), deadline: sys::real_now_ns() + budget * 1_000_000_000, execs: 0 };
        let (mut case, mut d) = (case0.clone(), d0.clone());
        if m.try_replay(&case0, &d0) {
            let full = m.deadline;
            if m.try_replay(&case0, &[]) {
                d = vec![];
            }
            m.deadline = sys::real_now_ns() + budget * 650_000_000;
            let r = m.shrink_case(case.clone(), d.clone());
            case = r.0;
            m.deadline = full;
            d = m.shrink_decisions(&case, r.1);
        } else {
            println!("dst: note: replay from the decision log did not reproduce; keeping the original run");
        }
        let f = exec(&e, Some(&case), (0, 0, false), Sched::Replay(&d, m.hash_seed), WALL);
        let o = if f.ok { o } else { f };
        let dir = format!("{}/replays", verif_dir());
        std::fs::create_dir_all(&dir).ok();
        replay_path = format!("{}/{}-{}-{}.json", dir, e.id, seed, min_fail);
        let rf = ReplayFile {
            property: e.id.into(), seed, index: min_fail, class: o.class.clone(), message: o.msg.clone(), event_hash: o.event_hash,
            hash_seed: m.hash_seed, case: serde_json::from_str(&case).unwrap_or(serde_json::Value::Null),
            decisions: d.iter().map(|x| (x.kind, x.at, x.v)).collect(), history: Vec::new(),
        };
        std::fs::write(&replay_path, serde_json::to_string_pretty(&rf).unwrap()).ok();
        // fresh process
        let rep = std::process::Command::new("/proc/self/exe").arg("replay").arg(&replay_path).env("VERIF_DIR", verif_dir()).output();
        let reproduced = rep.map_or(false, |x| x.status.code() == Some(1));
        println!("dst: minimised in {} executions: case {} -> {} bytes, decisions {} -> {}, replay in a fresh process {}",
            m.execs, case0.len(), case.len(), d0.len(), d.len(), if reproduced { "reproduces" } else { "DOES NOT reproduce" });
        println!("dst: case {}", case);
        println!("dst: {}: {}", o.class, o.msg);
        mini_info = serde_json::json!({"executions": m.execs, "case_bytes": [case0.len(), case.len()], "decisions": [d0.len(), d.len()], "replay_reproduces": reproduced, "class": o.class, "message": o.msg});
        violation = Some(o);
    }
    let wall = (sys::real_now_ns() - t0) as f64 / 1e9;
    let per_hour = total as f64 / search_s.max(0.001) * 3600.0;
    let probes_map: BTreeMap<String, u64> = e.probes.iter().enumerate().filter(|(_, n)| !n.is_empty()).map(|(i, n)| (n.to_string(), probes[i])).collect();
    let sim_s = sum(|o| o.sim_ns) as f64 / 1e9;
    let policies: BTreeMap<&str, u64> = ["random_walk", "address_directed", "pct", "burst", "coarse"].iter().copied().zip(pol.iter().copied()).collect();
    let ev = serde_json::json!({
        "property": e.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": traces,
            "rule": format!("{} Counted: runs flagged non-trivial, distinct by hash of (case, complete sequence of baton changes with step numbers, history of harness events).", e.rule),
            "samples": samples,
            "nontrivial_runs": sum(|o| o.nontrivial),
            "invalid_cases_skipped": sum(|o| o.invalid),
            "distinct_cases": cases,
            "distinct_histories": evs,
            "seeds_per_hour": per_hour as u64,
            "search_wall_s": search_s,
            "processes": n,
            "simulated_time_s": sim_s,
            "instrumented_accesses": sum(|o| o.steps),
            "max_accesses_in_one_run": os.iter().map(|o| o.max_steps).max(),
            "baton_changes": sum(|o| o.switches),
            "preemptions_at_accesses_or_callbacks": sum(|o| o.preempts),
            "scheduling_choices": sum(|o| o.forced),
            "simulated_threads": sum(|o| o.threads),
            "harness_events": sum(|o| o.events),
            "library_calls_checked": sum(|o| o.lib_calls),
            "runs_per_policy": policies,
            "faults_injected": named_faults(&faults),
            "runs_with_fault": named_faults(&fault_runs),
            "rare_conditions_hit": probes_map,
            "known_findings_hit": sum(|o| o.nknown),
            "unreproduced_runs": sum(|o| o.flaky),
            "harness_errors": sum(|o| o.harness_errors),
            "real_components": e.real,
            "stubbed_components": e.stub,
            "minimisation": mini_info,
        },
        "assumptions": [
            "preemption points are the loads and stores the compiler keeps in the instrumented crates (opt-level 1); code of std and nalgebra that is not generic is executed atomically",
            "sequentially consistent memory: one thread runs at a time, so weak-memory reorderings are not explored",
        ],
        "wall_s": wall,
        "violations": violation.is_some() as u64,
    });
    let evdir = format!("{}/evidence", verif_dir());
    std::fs::create_dir_all(&evdir).ok();
    if let Err(x) = std::fs::write(format!("{}/{}.json", evdir, e.id), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("dst: cannot write evidence: {}", x);
        std::process::exit(3);
    }
    println!("dst: {} runs ({} distinct non-trivial, {} distinct histories) in {:.1} s, {:.0} seeds/hour, {} accesses, {} baton changes", total, traces, evs, search_s, per_hour, sum(|o| o.steps), sum(|o| o.switches));
    println!("dst: faults {:?}", named_faults(&faults));
    println!("dst: probes {:?}", probes_map);
    for (i, k) in known.iter().enumerate() {
        if k.property == e.id {
            println!("KNOWN-FINDING: property={} {} (key {}, met in {} runs)", k.property, k.what, k.key, os.iter().map(|o| o.known[i]).sum::<u64>());
        }
    }
    if violation.is_some() {
        println!("VIOLATION property={} replay={}", e.id, replay_path);
        std::process::exit(1);
    }
    if sum(|o| o.harness_errors) > 0 && sum(|o| o.harness_errors) * 100 > total {
        eprintln!("dst: too many harness errors");
        std::process::exit(3);
    }
    if total - sum(|o| o.invalid) < total / 2 {
        eprintln!("dst: too many invalid cases");
        std::process::exit(3);
    }
}
