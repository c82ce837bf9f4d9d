//! Exhaustive exploration engine shared by all checks.
//!
//! A check is a list of [`Space`]s. A space is a finite, totally ordered set of cases addressed by an
//! index `0..count`; running a case executes real code from /repo and compares it with an oracle.
//! The engine runs every index of every space (no sampling), spread over forked worker processes so
//! that a crash, an abort or an endless loop of the code under test is attributed to the exact case
//! and reported as a violation only after the same case fails again in a fresh process.

pub mod alloc_track;


use std::cell::RefCell;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::Instant;

/// What a case reports when the oracle disagrees.
pub type CaseResult = Result<(), String>;

pub struct Space<'a> {
    pub name: String,
    pub desc: String,
    pub count: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> CaseResult + 'a>,
}

impl<'a> Space<'a> {
    pub fn new(
        name: impl Into<String>,
        desc: impl Into<String>,
        count: u64,
        run: impl Fn(u64, &mut Ctx) -> CaseResult + 'a,
    ) -> Self {
        Space {
            name: name.into(),
            desc: desc.into(),
            count,
            run: Box::new(run),
        }
    }
}

/// Mixed-radix decoder: turns a case index into independent coordinates.
pub struct Radix(pub u64);
impl Radix {
    pub fn take(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        let r = self.0 % n as u64;
        self.0 /= n as u64;
        r as usize
    }
    pub fn done(&self) -> bool {
        self.0 == 0
    }
}

pub struct Ctx {
    pub tracing: bool,
    pub trace: Vec<String>,
    transitions: u64,
    executions: u64,
    bitmap: *const AtomicU64,
    heartbeat: *const AtomicU64,
}

const BITS: u64 = 1 << 29;

impl Ctx {
    /// Note one executed transition (an operation on the real code).
    #[inline]
    pub fn step(&mut self, f: impl FnOnce() -> String) {
        self.transitions += 1;
        if self.tracing {
            let s = f();
            self.trace.push(s);
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            self.trace.push(s);
        }
    }
    /// Note one complete execution (a history run to its end and compared).
    #[inline]
    pub fn execution(&mut self) {
        self.executions += 1;
        if self.executions & 0xff == 0 {
            self.beat();
        }
    }
    #[inline]
    pub fn beat(&self) {
        if !self.heartbeat.is_null() {
            unsafe { (*self.heartbeat).fetch_add(1, Relaxed) };
        }
    }
    /// Note a visited state by fingerprint.
    #[inline]
    pub fn state(&mut self, fp: u64) {
        let h = mix(fp) % BITS;
        if self.bitmap.is_null() {
            return;
        }
        unsafe {
            let w = &*self.bitmap.add((h / 64) as usize);
            let bit = 1u64 << (h % 64);
            if w.load(Relaxed) & bit == 0 {
                w.fetch_or(bit, Relaxed);
            }
        }
    }
}

#[inline]
pub fn mix(mut x: u64) -> u64 {
    x ^= x >> 32;
    x = x.wrapping_mul(0xd6e8feb86659fd93);
    x ^= x >> 32;
    x = x.wrapping_mul(0xd6e8feb86659fd93);
    x ^= x >> 32;
    x
}

/// Incremental fingerprint.
#[derive(Clone, Copy)]
pub struct Fp(pub u64);
impl Default for Fp {
    fn default() -> Self {
        Fp(0x9e3779b97f4a7c15)
    }
}
impl Fp {
    #[inline]
    pub fn add(&mut self, x: u64) {
        self.0 = mix(self.0.wrapping_mul(31).wrapping_add(x));
    }
    pub fn add_bytes(&mut self, b: &[u8]) {
        self.add(b.len() as u64);
        for c in b.chunks(8) {
            let mut v = 0u64;
            for (i, x) in c.iter().enumerate() {
                v |= (*x as u64) << (8 * i);
            }
            self.add(v);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Check<'a> {
    pub property: &'static str,
    pub tier: Tier,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub spaces: Vec<Space<'a>>,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}

/// Install a hook that records panics instead of printing them.
pub fn quiet_panics() {
    if std::env::var_os("MC_STDERR").is_some() {
        return;
    }
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{info}");
        let _ = PANIC_MSG.try_with(|m| {
            if let Ok(mut m) = m.try_borrow_mut() {
                *m = s;
            }
        });
    }));
}
pub fn last_panic() -> String {
    PANIC_MSG.with(|m| m.borrow().clone())
}

/// Release the memory of the last panic's message.
pub fn forget_panic() {
    PANIC_MSG.with(|m| *m.borrow_mut() = String::new());
}

pub fn tier_from_args() -> Tier {
    let a: Vec<String> = std::env::args().collect();
    match a.iter().find(|s| *s == "quick" || *s == "thorough").map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

/// The property id this process was asked to decide (first argument).
pub fn property_from_args() -> String {
    std::env::args().nth(1).unwrap_or_else(|| {
        eprintln!("usage: <bin> <PROPERTY> <quick|thorough> [--replay FILE]");
        std::process::exit(2)
    })
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

#[repr(C)]
struct Slot {
    space: AtomicU64,
    idx: AtomicU64,
    chunk_start: AtomicU64,
    beat: AtomicU64,
    transitions: AtomicU64,
    executions: AtomicU64,
    cases: AtomicU64,
    busy: AtomicU64,
}
const MAXW: usize = 64;
const MAXS: usize = 4096;
#[repr(C)]
struct Shared {
    stop: AtomicU64,
    viol_lock: AtomicU64,
    viol_set: AtomicU64,
    viol_space: AtomicU64,
    viol_idx: AtomicU64,
    viol_chunk: AtomicU64,
    viol_len: AtomicU64,
    viol_msg: [u8; 8192],
    next: [AtomicU64; MAXS],
    done: [AtomicU64; MAXS],
    slots: [Slot; MAXW],
}

unsafe fn shm(len: usize) -> *mut libc::c_void {
    let p = libc::mmap(
        std::ptr::null_mut(),
        len,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    if p == libc::MAP_FAILED {
        fatal("mmap failed");
    }
    p
}

fn fatal(msg: &str) -> ! {
    println!("ERROR {msg}");
    eprintln!("ERROR {msg}");
    std::process::exit(3)
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run_guarded(space: &Space, idx: u64, ctx: &mut Ctx) -> CaseResult {
    PANIC_MSG.with(|m| m.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(|| (space.run)(idx, ctx))) {
        Ok(r) => r,
        Err(_) => Err(format!("unexpected panic: {}", last_panic())),
    }
}

/// How long one case may go without any progress before it counts as an endless loop.
const HANG_SECS: u64 = 40;

impl<'a> Check<'a> {
    pub fn main(self) -> ! {
        quiet_panics();
        let args: Vec<String> = std::env::args().collect();
        if let Some(p) = args.iter().position(|a| a == "--replay") {
            self.replay(&args[p + 1]);
        }
        if args.iter().any(|a| a == "--list") {
            for s in &self.spaces {
                println!("{:>12} {} : {}", s.count, s.name, s.desc);
            }
            std::process::exit(0);
        }
        let only = args.iter().position(|a| a == "--space").map(|p| args[p + 1].clone());
        self.explore(only)
    }

    fn replay(&self, file: &str) -> ! {
        let txt = std::fs::read_to_string(file).unwrap_or_else(|e| fatal(&format!("replay: {e}")));
        let mut space = None;
        let mut idx = None;
        for l in txt.lines() {
            if let Some(v) = l.strip_prefix("space=") {
                space = Some(v.to_string());
            }
            if let Some(v) = l.strip_prefix("case=") {
                idx = v.trim().parse::<u64>().ok();
            }
        }
        let (space, idx) = match (space, idx) {
            (Some(s), Some(i)) => (s, i),
            _ => fatal("replay file has no space=/case= lines"),
        };
        let s = self
            .spaces
            .iter()
            .find(|s| s.name == space)
            .unwrap_or_else(|| fatal("replay: unknown space for this tier"));
        let mut ctx = Ctx::detached(true);
        let r = run_guarded(s, idx, &mut ctx);
        for l in &ctx.trace {
            println!("  {l}");
        }
        match r {
            Ok(()) => {
                println!("replay: held");
                std::process::exit(0)
            }
            Err(m) => {
                println!("replay: {m}");
                println!("VIOLATION property={} replay={file}", self.property);
                std::process::exit(1)
            }
        }
    }

    fn explore(self, only: Option<String>) -> ! {
        let t0 = Instant::now();
        let nw: usize = std::env::var("MC_WORKERS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| {
                std::thread::available_parallelism()
                    .map(|n| n.get())
                    .unwrap_or(4)
            })
            .clamp(1, MAXW);
        if self.spaces.len() > MAXS {
            fatal("too many spaces");
        }
        let spaces: Vec<&Space> = self
            .spaces
            .iter()
            .filter(|s| only.as_ref().map_or(true, |o| s.name.contains(o.as_str())))
            .collect();
        let cap_s: u64 = std::env::var("MC_CAP_SECS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(match self.tier {
                Tier::Quick => 420,
                Tier::Thorough => 10_800,
            });
        let sh: &Shared = unsafe { &*(shm(std::mem::size_of::<Shared>()) as *const Shared) };
        let bitmap = unsafe { shm((BITS / 8) as usize) } as *const AtomicU64;

        let spawn = |w: usize| -> i32 {
            let pid = unsafe { libc::fork() };
            if pid < 0 {
                fatal("fork failed");
            }
            if pid == 0 {
                unsafe {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    let lim = libc::rlimit {
                        rlim_cur: 3 << 30,
                        rlim_max: 3 << 30,
                    };
                    libc::setrlimit(libc::RLIMIT_AS, &lim);
                    let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                    libc::setrlimit(libc::RLIMIT_CORE, &nocore);
                }
                worker(&spaces, sh, w, bitmap);
            }
            pid
        };
        let mut pids: Vec<i32> = (0..nw).map(&spawn).collect();
        let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); nw];
        let mut crashed: Option<(usize, u64, u64, String)> = None;
        let mut alive = nw;
        while alive > 0 {
            std::thread::sleep(std::time::Duration::from_millis(15));
            if t0.elapsed().as_secs() > cap_s {
                sh.stop.store(2, SeqCst);
            }
            for w in 0..nw {
                if pids[w] == 0 {
                    continue;
                }
                let mut st = 0;
                let r = unsafe { libc::waitpid(pids[w], &mut st, libc::WNOHANG) };
                let slot = &sh.slots[w];
                if r == pids[w] {
                    pids[w] = 0;
                    alive -= 1;
                    let ok = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0;
                    if !ok && crashed.is_none() {
                        let what = if libc::WIFSIGNALED(st) {
                            format!("process killed by signal {}", libc::WTERMSIG(st))
                        } else {
                            format!("process exited with status {}", libc::WEXITSTATUS(st))
                        };
                        crashed = Some((
                            slot.space.load(SeqCst) as usize,
                            slot.idx.load(SeqCst),
                            slot.chunk_start.load(SeqCst),
                            what,
                        ));
                        sh.stop.store(1, SeqCst);
                    }
                    continue;
                }
                let b = slot.beat.load(Relaxed);
                if b != last[w].0 {
                    last[w] = (b, Instant::now());
                } else if slot.busy.load(Relaxed) == 1
                    && last[w].1.elapsed().as_secs() > HANG_SECS
                {
                    unsafe { libc::kill(pids[w], libc::SIGKILL) };
                    let mut st = 0;
                    unsafe { libc::waitpid(pids[w], &mut st, 0) };
                    pids[w] = 0;
                    alive -= 1;
                    if crashed.is_none() {
                        crashed = Some((
                            slot.space.load(SeqCst) as usize,
                            slot.idx.load(SeqCst),
                            slot.chunk_start.load(SeqCst),
                            format!("no progress for {HANG_SECS} s (endless loop)"),
                        ));
                    }
                    sh.stop.store(1, SeqCst);
                }
            }
        }

        // Collect a violation, if any.
        let mut found: Option<(usize, u64, u64, String)> = None;
        if sh.viol_set.load(SeqCst) == 1 {
            let n = sh.viol_len.load(SeqCst) as usize;
            let m = String::from_utf8_lossy(&sh.viol_msg[..n]).to_string();
            found = Some((
                sh.viol_space.load(SeqCst) as usize,
                sh.viol_idx.load(SeqCst),
                sh.viol_chunk.load(SeqCst),
                m,
            ));
        } else if let Some(c) = crashed {
            found = Some(c);
        }

        let stopped = sh.stop.load(SeqCst);
        let mut total_cases = 0u64;
        let mut transitions = 0u64;
        let mut executions = 0u64;
        for s in sh.slots.iter() {
            total_cases += s.cases.load(SeqCst);
            transitions += s.transitions.load(SeqCst);
            executions += s.executions.load(SeqCst);
        }
        let mut states = 0u64;
        for i in 0..(BITS / 64) as usize {
            states += unsafe { (*bitmap.add(i)).load(Relaxed) }.count_ones() as u64;
        }
        let want: u64 = spaces.iter().map(|s| s.count).sum();
        let exhaustive = total_cases == want && found.is_none();

        let mut viol_line = None;
        if let Some((si, idx, chunk, msg)) = found {
            let path = format!("{}/evidence/violation-{}.txt", verif_dir(), self.property);
            let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
            match confirm(&spaces, si, idx, chunk, &msg, self.property, &path) {
                Some(m) => {
                    println!("space {} case {}: {}", spaces[si].name, idx, m);
                    viol_line = Some(format!(
                        "VIOLATION property={} replay={}",
                        self.property, path
                    ));
                }
                None => {
                    fatal(&format!(
                        "space {} case {idx} failed once but not when run again: {msg}",
                        spaces[si].name
                    ));
                }
            }
        }

        // Samples: actual cases of this run, written out.
        let mut samples = vec![];
        let nsamp = spaces.len().min(6);
        if viol_line.is_none() {
            for k in 0..nsamp {
                let s = spaces[k * spaces.len() / nsamp];
                if s.count == 0 {
                    continue;
                }
                let mut ctx = Ctx::detached(true);
                let _ = run_guarded(s, s.count / 2, &mut ctx);
                let mut t = ctx.trace;
                if t.len() > 14 {
                    let extra = t.len() - 12;
                    t.truncate(12);
                    t.push(format!("... {extra} more steps"));
                }
                samples.push(format!(
                    "{{\"space\":{},\"case\":{},\"trace\":[{}]}}",
                    json_str(&s.name),
                    s.count / 2,
                    t.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",")
                ));
            }
        }
        let wall = t0.elapsed().as_secs_f64();
        let sp: Vec<String> = spaces
            .iter()
            .enumerate()
            .map(|(i, s)| {
                format!(
                    "{{\"name\":{},\"what\":{},\"cases\":{},\"completed\":{}}}",
                    json_str(&s.name),
                    json_str(&s.desc),
                    s.count,
                    sh.done[i].load(SeqCst)
                )
            })
            .collect();
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"cases\": {},\n  \"cases_planned\": {},\n  \"rule\": {},\n  \"state_count_note\": \"distinct state fingerprints, counted in a {}-bit hash bitmap (collisions only lower the count)\",\n  \"spaces\": [\n   {}\n  ],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            json_str(self.property),
            json_str(if self.tier == Tier::Quick { "quick" } else { "thorough" }),
            std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
            states,
            transitions,
            executions,
            exhaustive,
            total_cases,
            want,
            json_str(&self.rule),
            BITS,
            sp.join(",\n   "),
            samples.join(","),
            self.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
            wall,
            viol_line.is_some() as i32
        );
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        if only.is_none() {
            let path = format!("{dir}/{}.json", self.property);
            if let Err(e) = std::fs::write(&path, ev) {
                fatal(&format!("cannot write {path}: {e}"));
            }
        }
        println!(
            "{} {:?}: spaces={} cases={}/{} executions={} transitions={} distinct_states={} wall={:.1}s{}",
            self.property,
            self.tier,
            spaces.len(),
            total_cases,
            want,
            executions,
            transitions,
            states,
            wall,
            if stopped == 2 { " (time cap reached, not exhaustive)" } else { "" }
        );
        if let Some(l) = viol_line {
            println!("{l}");
            let _ = std::io::stdout().flush();
            std::process::exit(1);
        }
        std::process::exit(0);
    }
}

impl Ctx {
    pub fn detached(tracing: bool) -> Ctx {
        Ctx {
            tracing,
            trace: vec![],
            transitions: 0,
            executions: 0,
            bitmap: std::ptr::null(),
            heartbeat: std::ptr::null(),
        }
    }
}

fn worker(spaces: &[&Space], sh: &Shared, w: usize, bitmap: *const AtomicU64) -> ! {
    let slot = &sh.slots[w];
    let mut ctx = Ctx {
        tracing: false,
        trace: vec![],
        transitions: 0,
        executions: 0,
        bitmap,
        heartbeat: &slot.beat,
    };
    slot.busy.store(1, Relaxed);
    'all: for (si, s) in spaces.iter().enumerate() {
        let chunk = (s.count / (8 * 64)).clamp(1, 512);
        slot.space.store(si as u64, Relaxed);
        loop {
            if sh.stop.load(Relaxed) != 0 {
                break 'all;
            }
            let start = sh.next[si].fetch_add(chunk, Relaxed);
            if start >= s.count {
                break;
            }
            slot.chunk_start.store(start, Relaxed);
            let end = (start + chunk).min(s.count);
            for idx in start..end {
                slot.idx.store(idx, Relaxed);
                slot.beat.fetch_add(1, Relaxed);
                if let Err(m) = run_guarded(s, idx, &mut ctx) {
                    if let Ok(file) = std::env::var("MC_SURVEY") {
                        // while developing a check: collect all disagreements
                        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(file) {
                            let _ = f.write_all(format!("{} {idx}: {m}\n", s.name).as_bytes());
                        }
                        slot.cases.fetch_add(1, Relaxed);
                        continue;
                    }
                    if sh.viol_lock.swap(1, SeqCst) == 0 {
                        let b = m.as_bytes();
                        let n = b.len().min(8192);
                        unsafe {
                            std::ptr::copy_nonoverlapping(
                                b.as_ptr(),
                                sh.viol_msg.as_ptr() as *mut u8,
                                n,
                            )
                        };
                        sh.viol_len.store(n as u64, SeqCst);
                        sh.viol_space.store(si as u64, SeqCst);
                        sh.viol_idx.store(idx, SeqCst);
                        sh.viol_chunk.store(start, SeqCst);
                        sh.viol_set.store(1, SeqCst);
                    }
                    sh.stop.store(1, SeqCst);
                    break 'all;
                }
                slot.cases.fetch_add(1, Relaxed);
                sh.done[si].fetch_add(1, Relaxed);
                if sh.stop.load(Relaxed) != 0 {
                    break;
                }
            }
            slot.transitions.store(ctx.transitions, Relaxed);
            slot.executions.store(ctx.executions, Relaxed);
        }
    }
    slot.transitions.store(ctx.transitions, Relaxed);
    slot.executions.store(ctx.executions, Relaxed);
    slot.busy.store(0, Relaxed);
    unsafe { libc::_exit(0) }
}

/// Re-run the failing case alone in a fresh process (then its chunk, for failures that need what the
/// earlier cases of the chunk left behind). Writes the replay artefact. Returns the message if the
/// failure shows again.
fn confirm(
    spaces: &[&Space],
    si: usize,
    idx: u64,
    chunk: u64,
    first: &str,
    property: &str,
    path: &str,
) -> Option<String> {
    for attempt in 0..3 {
        let from = if attempt == 0 { idx } else { chunk };
        let tmp = format!("{path}.tmp");
        let _ = std::fs::remove_file(&tmp);
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            fatal("fork failed");
        }
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let lim = libc::rlimit {
                    rlim_cur: 3 << 30,
                    rlim_max: 3 << 30,
                };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                libc::alarm(HANG_SECS as u32 + 20);
            }
            let mut bad = None;
            for i in from..=idx {
                let mut ctx = Ctx::detached(i == idx);
                if let Err(m) = run_guarded(spaces[si], i, &mut ctx) {
                    bad = Some((i, m, ctx.trace));
                    break;
                }
            }
            if let Some((_, m, tr)) = bad {
                let mut o = format!("{m}\n");
                for l in tr {
                    o.push_str(&l);
                    o.push('\n');
                }
                let _ = std::fs::write(&tmp, o);
                unsafe { libc::_exit(7) }
            }
            unsafe { libc::_exit(0) }
        }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let clean = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0;
        if clean {
            continue;
        }
        let (msg, trace) = if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 7 {
            let t = std::fs::read_to_string(&tmp).unwrap_or_default();
            let (m, rest) = t.split_once('\n').unwrap_or((&t, ""));
            (m.to_string(), rest.to_string())
        } else if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM {
            ("the code under test does not terminate on this case".to_string(), String::new())
        } else {
            (
                format!("the code under test crashed the process on this case ({first})"),
                String::new(),
            )
        };
        let _ = std::fs::remove_file(&tmp);
        let mut f = std::fs::File::create(path).ok()?;
        let _ = writeln!(
            f,
            "property={property}\nspace={}\ncase={idx}\nfrom={from}\nwhat={}\nmessage={msg}\ntrace:\n{trace}",
            spaces[si].name, spaces[si].desc
        );
        return Some(msg);
    }
    None
}
