//! The simulated operating system.
//!
//! The harness binary defines the C library entry points the Rust standard
//! library uses for files, directories, clocks, randomness and futexes. For
//! paths below /simfs (and the descriptors opened on them) they are served by
//! an in-memory file system under the control of one seed; everything else is
//! passed to the kernel. The same calls are the scheduling points of simulated
//! threads: exactly one registered thread runs at a time and a discrete-event
//! scheduler picks the next one.
//!
//! Faults, short transfers, interruptions, latencies and context switches are
//! functions of the configuration only.
#![allow(clippy::missing_safety_doc)]

use crate::json::J;
use crate::rng::{mix, mix2};
use crate::store::{Store, MAX_FILE};
use libc::{c_char, c_int, c_long, c_void, mode_t, off64_t, size_t, ssize_t};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};

pub const FD_BASE: c_int = 1_000_000;
pub const ROOT: &str = "/simfs";

// ---------------------------------------------------------------- call classes
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
#[repr(u8)]
pub enum Class {
    Open = 0,
    Read = 1,
    Write = 2,
    Seek = 3,
    Stat = 4,
    Sync = 5,
    Dup = 6,
    Close = 7,
    Dir = 8,
    Trunc = 9,
    Any = 10,
}
pub const NCLASS: usize = 11;
pub const CLASSES: [(&str, Class); NCLASS] = [
    ("open", Class::Open),
    ("read", Class::Read),
    ("write", Class::Write),
    ("seek", Class::Seek),
    ("stat", Class::Stat),
    ("sync", Class::Sync),
    ("dup", Class::Dup),
    ("close", Class::Close),
    ("dir", Class::Dir),
    ("trunc", Class::Trunc),
    ("any", Class::Any),
];
pub fn class_name(c: Class) -> &'static str {
    CLASSES[c as usize].0
}
pub fn class_of(s: &str) -> Class {
    CLASSES.iter().find(|c| c.0 == s).map(|c| c.1).unwrap_or(Class::Any)
}

#[derive(Clone, Debug)]
pub enum Kind {
    /// the call fails with this errno
    Errno(i32),
    /// a read or write transfers nothing and returns 0
    Zero,
    /// the file the call is about is cut to this length first (None: to half)
    Trunc(Option<u64>),
    /// the environment changes the name space before the call
    Unlink(String),
    Rename(String, String),
    /// replaces path by a new file holding the contents of another path
    Replace(String, String),
    /// a write transfers a part, then the disk is full
    Full,
    /// another part of the process changes the working directory
    Chdir(String),
}

#[derive(Clone, Debug)]
pub struct Fault {
    pub phase: u32,
    pub class: Class,
    pub nth: u64,
    pub kind: Kind,
    pub persist: bool,
}

/// decisions about harmless behaviour: short transfers and interrupted calls
#[derive(Clone, Debug, Default)]
pub struct Benign {
    pub seed: u64,
    pub short: u64,
    pub eintr: u64,
    /// explicit decisions (ordinal, 0 short / 1 eintr, bytes) replacing the seed
    pub list: Option<Vec<(u64, u8, u64)>>,
}

#[derive(Clone, Debug, Default)]
pub struct Sched {
    pub seed: u64,
    /// 0: latencies drawn uniformly, 1: a few slow calls, 2: one slow thread,
    /// 3: strict alternation, 4: long runs with rare switches
    pub profile: u64,
    /// mean number of allocations between two preemptions of a simulated thread (0: only at calls)
    pub preempt: u64,
    /// explicit context switches (step, thread)
    pub list: Option<Vec<(u64, u64)>>,
}

#[derive(Clone, Debug)]
pub enum Op {
    Create(usize, String),
    Write(usize, u64, Vec<u8>),
    Trunc(usize, u64),
    Unlink(String),
    Rename(String, String),
}

#[derive(Default)]
pub struct Inode {
    pub store: Store,
    pub dir: bool,
    pub unreadable: bool,
}
struct Ofd {
    ino: usize,
    pos: u64,
    rd: bool,
    wr: bool,
    append: bool,
    refs: u32,
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum TS {
    Ready(u64, u64),
    Futex(usize, u64), // address, deadline (u64::MAX: none)
    Done,
}
struct Th {
    st: TS,
    go: Box<AtomicU32>,
    timed_out: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub calls: u64,
    pub eintr: u64,
    pub short_r: u64,
    pub short_w: u64,
    pub fired: BTreeMap<String, u64>,
    pub switches: u64,
    pub clock_ns: u64,
    pub peak_fds: u64,
    pub opened: u64,
    pub bytes_read: u64,
    pub bytes_written: u64,
}

pub struct Sim {
    inodes: Vec<Inode>,
    names: BTreeMap<String, usize>,
    ofds: Vec<Option<Ofd>>,
    fds: Vec<Option<usize>>,
    nfds: u64,
    pub fd_limit: u64,
    pub cwd: Option<String>,
    faults: Vec<Fault>,
    fired: Vec<u64>,
    benign: Benign,
    benign_map: BTreeMap<u64, (u8, u64)>,
    pub benign_log: Vec<(u64, u8, u64)>,
    consec: u32,
    phase: u32,
    counts: BTreeMap<u32, [u64; NCLASS]>,
    pub ops: Option<Vec<Op>>,
    pub hash: u64,
    pub stats: Stats,
    budget: u64,
    clock: u64,
    clock_base: u64,
    rand: u64,
    pub mutations: u64,
    pub disk_free: Option<u64>,
    // threads
    ths: Vec<Th>,
    cur: usize,
    seq: u64,
    step: u64,
    sched: Sched,
    sched_map: BTreeMap<u64, u64>,
    pub switch_log: Vec<(u64, u64)>,
    prios: Vec<u64>,
    pub trace: Option<Vec<String>>,
    /// standard output and error of a captured program: a simulated descriptor, and text
    console: Option<(c_int, Vec<u8>)>,
}

// ---------------------------------------------------------------- global state
static LOCK: AtomicBool = AtomicBool::new(false);
static ACTIVE: AtomicBool = AtomicBool::new(false);
static mut SIM: Option<Box<Sim>> = None;
thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
    static INSIDE: Cell<u32> = const { Cell::new(0) };
}

struct Guard;
impl Guard {
    fn get() -> (Guard, &'static mut Sim) {
        while LOCK.compare_exchange(false, true, SeqCst, SeqCst).is_err() {
            unsafe { raw0(libc::SYS_sched_yield) };
        }
        INSIDE.with(|i| i.set(i.get() + 1));
        #[allow(static_mut_refs)]
        let s = unsafe { SIM.as_mut().unwrap() };
        (Guard, s)
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        INSIDE.with(|i| i.set(i.get() - 1));
        LOCK.store(false, SeqCst);
    }
}
fn active() -> bool {
    ACTIVE.load(SeqCst)
}
/// true while the simulator itself is running on this thread
pub fn inside() -> bool {
    INSIDE.with(|i| i.get() > 0)
}

// ---------------------------------------------------------------- raw syscalls
#[inline(always)]
unsafe fn raw6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn raw0(n: c_long) -> isize {
    raw6(n, 0, 0, 0, 0, 0, 0)
}
unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}
unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}
unsafe fn pass(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    ret(raw6(n, a, b, c, d, e, f))
}
unsafe fn fail(e: c_int) -> isize {
    set_errno(e);
    -1
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw6(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}

static REPORT_FD: AtomicU32 = AtomicU32::new(u32::MAX);
/// the descriptor on which a run that cannot continue says why
pub fn set_report_fd(fd: i32) {
    REPORT_FD.store(fd as u32, SeqCst);
}
/// ends the simulated process from inside a call: `what` becomes the verdict
pub fn abort_run(what: &str) -> ! {
    let fd = REPORT_FD.load(SeqCst);
    let s = format!("{{\"fatal\":\"{}\"}}\n", what.replace('"', "'"));
    unsafe {
        raw6(libc::SYS_write, fd as usize, s.as_ptr() as usize, s.len(), 0, 0, 0);
    }
    exit_now(77)
}

// ---------------------------------------------------------------- configuration
pub fn start() {
    let s = Sim {
        inodes: Vec::new(),
        names: BTreeMap::new(),
        ofds: Vec::new(),
        fds: Vec::new(),
        nfds: 0,
        fd_limit: 1000,
        cwd: None,
        faults: Vec::new(),
        fired: Vec::new(),
        benign: Benign::default(),
        benign_map: BTreeMap::new(),
        benign_log: Vec::new(),
        consec: 0,
        phase: 0,
        counts: BTreeMap::new(),
        ops: None,
        hash: 0x1234_5678,
        stats: Stats::default(),
        budget: 5_000_000,
        clock: 0,
        clock_base: 1_700_000_000_000_000_000,
        rand: 1,
        mutations: 0,
        disk_free: None,
        ths: Vec::new(),
        cur: 0,
        seq: 0,
        step: 0,
        sched: Sched::default(),
        sched_map: BTreeMap::new(),
        switch_log: Vec::new(),
        prios: Vec::new(),
        trace: None,
        console: None,
    };
    unsafe {
        SIM = Some(Box::new(s));
    }
    with(|s| {
        s.inodes.push(Inode { dir: true, ..Default::default() });
        s.names.insert(ROOT.to_string(), 0);
    });
    ACTIVE.store(true, SeqCst);
}

/// access to the simulator from the harness
pub fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
    let (_g, s) = Guard::get();
    f(s)
}

#[derive(Clone, Debug)]
pub struct Config {
    pub benign: Benign,
    pub faults: Vec<Fault>,
    pub sched: Sched,
    pub fd_limit: u64,
    pub rand: u64,
    pub clock_base: u64,
    pub log_ops: bool,
    pub budget: u64,
    pub disk_free: Option<u64>,
}
impl Default for Config {
    fn default() -> Self {
        Config {
            benign: Benign::default(),
            faults: vec![],
            sched: Sched::default(),
            fd_limit: 1000,
            rand: 1,
            clock_base: 1_700_000_000_000_000_000,
            log_ops: false,
            budget: 5_000_000,
            disk_free: None,
        }
    }
}

/// a fresh machine: empty file system, new clock, new configuration
pub fn reset(cfg: &Config) {
    with(|s| {
        s.inodes.clear();
        s.names.clear();
        s.ofds.clear();
        s.fds.clear();
        s.nfds = 0;
        s.inodes.push(Inode { dir: true, ..Default::default() });
        s.names.insert(ROOT.to_string(), 0);
        s.cwd = None;
        s.apply(cfg);
        s.hash = 0x1234_5678;
        s.stats = Stats::default();
        s.mutations = 0;
        s.clock = 0;
        s.benign_log.clear();
        s.switch_log.clear();
        s.ths.clear();
        s.step = 0;
    })
}

impl Sim {
    pub fn names_get(&self, path: &str) -> Option<usize> {
        self.names.get(&self.resolve(path)?).copied()
    }
    /// new decisions for the calls that follow, on the same machine
    pub fn apply(&mut self, cfg: &Config) {
        self.fd_limit = cfg.fd_limit;
        self.faults = cfg.faults.clone();
        self.fired = vec![0; cfg.faults.len()];
        self.benign = cfg.benign.clone();
        self.benign_map.clear();
        if let Some(l) = &cfg.benign.list {
            for (o, k, n) in l {
                self.benign_map.insert(*o, (*k, *n));
            }
        }
        self.sched = cfg.sched.clone();
        self.sched_map.clear();
        if let Some(l) = &cfg.sched.list {
            for (o, k) in l {
                self.sched_map.insert(*o, *k);
            }
        }
        PREEMPT.store(cfg.sched.preempt, SeqCst);
        PSEED.store(mix(cfg.sched.seed ^ 0x9e37), SeqCst);
        self.rand = mix(cfg.rand);
        self.clock_base = cfg.clock_base;
        self.ops = if cfg.log_ops { Some(vec![]) } else { None };
        self.budget = cfg.budget;
        self.disk_free = cfg.disk_free;
        self.consec = 0;
        self.phase = 0;
        self.counts.clear();
    }
}

pub fn set_phase(p: u32) {
    with(|s| s.phase = p)
}
pub fn count(phase: u32, c: Class) -> u64 {
    with(|s| s.counts.get(&phase).map(|a| a[c as usize]).unwrap_or(0))
}
/// new faults for the calls that follow, in phase 0, counted afresh
pub fn inject(f: Vec<Fault>) {
    with(|s| {
        s.fired = vec![0; f.len()];
        s.faults = f;
        s.phase = 0;
        s.counts.clear();
    })
}
/// what was taken by a full disk is free again
pub fn free_disk() {
    with(|s| s.disk_free = None)
}
pub fn faults_fired() -> u64 {
    with(|s| s.fired.iter().sum())
}
pub fn put_file(path: &str, data: &[u8]) {
    with(|s| {
        let p = s.resolve(path).unwrap_or_else(|| path.to_string());
        s.put(&p, Store::from_bytes(data))
    });
}
pub fn add_dir(path: &str) {
    with(|s| {
        let ino = s.inodes.len();
        s.inodes.push(Inode { dir: true, ..Default::default() });
        let p = s.resolve(path).unwrap_or_else(|| path.to_string());
        s.names.insert(p, ino);
    })
}
pub fn get_file(path: &str) -> Option<Vec<u8>> {
    with(|s| s.names_get(path).as_ref().map(|i| s.inodes[*i].store.to_vec()))
}
pub fn file_len(path: &str) -> Option<u64> {
    with(|s| s.names_get(path).as_ref().map(|i| s.inodes[*i].store.len()))
}
pub fn file_hash(path: &str) -> Option<u64> {
    with(|s| s.names_get(path).as_ref().map(|i| s.inodes[*i].store.hash()))
}
pub fn read_file_at(path: &str, off: u64, out: &mut [u8]) -> usize {
    with(|s| s.names_get(path).as_ref().map(|i| s.inodes[*i].store.read(off, out)).unwrap_or(0))
}
pub fn write_file_at(path: &str, off: u64, data: &[u8]) {
    with(|s| {
        if let Some(i) = s.names_get(path).as_ref().copied() {
            s.inodes[i].store.write(off, data)
        }
    })
}
pub fn set_unreadable(path: &str, v: bool) {
    with(|s| {
        if let Some(i) = s.names_get(path).as_ref().copied() {
            s.inodes[i].unreadable = v
        }
    })
}
pub fn env_truncate(path: &str, len: u64) {
    with(|s| {
        if let Some(i) = s.names_get(path).as_ref().copied() {
            s.inodes[i].store.truncate(len)
        }
    })
}
pub fn env_unlink(path: &str) {
    with(|s| {
        s.names.remove(path);
    })
}
pub fn env_rename(a: &str, b: &str) {
    with(|s| {
        if let Some(i) = s.names.remove(a) {
            s.names.insert(b.to_string(), i);
        }
    })
}
pub fn list_files() -> Vec<String> {
    with(|s| s.names.iter().filter(|(_, i)| !s.inodes[**i].dir).map(|(n, _)| n.clone()).collect())
}
pub fn open_fds() -> u64 {
    with(|s| s.nfds)
}
pub fn stats() -> Stats {
    with(|s| {
        let mut t = s.stats.clone();
        t.clock_ns = s.clock;
        t
    })
}
pub fn event_hash() -> u64 {
    with(|s| s.hash)
}

impl Sim {
    fn put(&mut self, path: &str, st: Store) {
        let ino = self.inodes.len();
        self.inodes.push(Inode { store: st, ..Default::default() });
        self.names.insert(path.to_string(), ino);
    }
    fn ev(&mut self, op: u64, a: u64, b: u64, c: u64, r: i64) {
        let t = TID.with(|t| t.get()) as u64;
        let mut h = self.hash;
        for v in [op, a, b, c, r as u64, t] {
            h = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
        }
        self.hash = h;
    }
    fn tr(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            if t.len() < 20000 {
                let tid = TID.with(|t| t.get());
                let s = f();
                t.push(format!("{:>9} ns  t{}  {}", self.clock, tid, s));
            }
        }
    }
    /// a remark of the harness in the trace
    pub fn note(&mut self, m: &str) {
        self.tr(|| format!("-- {m}"));
    }
    fn resolve(&self, p: &str) -> Option<String> {
        let full = if p.starts_with('/') {
            p.to_string()
        } else {
            format!("{}/{}", self.cwd.as_ref()?, p)
        };
        if !(full.starts_with("/simfs/") || full == ROOT) {
            return None;
        }
        let mut out: Vec<&str> = vec![];
        for c in full.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    out.pop();
                }
                c => out.push(c),
            }
        }
        Some(format!("/{}", out.join("/")))
    }
    fn parent_ok(&self, p: &str) -> bool {
        match p.rfind('/') {
            Some(0) | None => true,
            Some(i) => self.names.get(&p[..i]).map(|x| self.inodes[*x].dir).unwrap_or(false),
        }
    }
    /// accounting, latency and fault decision for one call. Ok(()) lets the call proceed.
    fn enter(&mut self, c: Class, ino: Option<usize>) -> Result<(u64, Option<Kind>), c_int> {
        let ord = self.stats.calls;
        self.stats.calls += 1;
        if self.stats.calls > self.budget {
            abort_run("hang: more I/O calls than the budget of the run");
        }
        self.clock += 1_000 + mix2(self.benign.seed ^ 0xC10C, ord) % 200_000;
        let cnt = self.counts.entry(self.phase).or_insert([0; NCLASS]);
        // calls are numbered from 1
        cnt[c as usize] += 1;
        cnt[Class::Any as usize] += 1;
        let n = cnt[c as usize];
        let nany = cnt[Class::Any as usize];
        let mut hit = None;
        for (i, f) in self.faults.iter().enumerate() {
            if f.phase != self.phase || !(f.class == c || f.class == Class::Any) {
                continue;
            }
            let k = if f.class == Class::Any { nany } else { n };
            if k == f.nth || (f.persist && k > f.nth) {
                hit = Some(i);
                break;
            }
        }
        if let Some(i) = hit {
            self.fired[i] += 1;
            let k = self.faults[i].kind.clone();
            let label = match &k {
                Kind::Errno(e) => format!("{}:{}", class_name(c), errno_name(*e)),
                Kind::Zero => format!("{}:zero", class_name(c)),
                Kind::Trunc(_) => "truncated under the reader".to_string(),
                Kind::Unlink(_) => "env:unlink".to_string(),
                Kind::Rename(_, _) => "env:rename".to_string(),
                Kind::Replace(_, _) => "env:replace".to_string(),
                Kind::Full => "write:partial+ENOSPC".to_string(),
                Kind::Chdir(_) => "env:chdir".to_string(),
            };
            self.tr(|| format!("FAULT {label}"));
            *self.stats.fired.entry(label).or_insert(0) += 1;
            self.ev(99, i as u64, 0, 0, 0);
            match &k {
                Kind::Errno(e) => return Err(*e),
                Kind::Zero | Kind::Full => return Ok((ord, Some(k))),
                Kind::Trunc(l) => {
                    if let Some(ino) = ino {
                        let cur = self.inodes[ino].store.len();
                        let l = l.unwrap_or(cur / 2);
                        if l < cur {
                            self.inodes[ino].store.truncate(l);
                        }
                    }
                }
                Kind::Unlink(p) => {
                    self.names.remove(p);
                }
                Kind::Chdir(p) => self.cwd = Some(p.clone()),
                Kind::Rename(a, b) => {
                    if let Some(i) = self.names.remove(a) {
                        self.names.insert(b.clone(), i);
                    }
                }
                Kind::Replace(p, q) => {
                    if let Some(i) = self.names.get(q).copied() {
                        let d = self.inodes[i].store.to_vec();
                        self.put(p, Store::from_bytes(&d));
                    }
                }
            }
        }
        Ok((ord, None))
    }
    /// short transfers and interruptions: Err(EINTR) or the number of bytes to transfer
    fn benign(&mut self, ord: u64, len: usize, wr: bool) -> Result<usize, c_int> {
        let (k, n) = if self.benign.list.is_some() {
            match self.benign_map.get(&ord) {
                Some(&(1, _)) => (1u8, 0u64),
                Some(&(0, n)) if len > 1 => (0, n.clamp(1, len as u64 - 1)),
                _ => (2, 0),
            }
        } else {
            let r = mix2(self.benign.seed, ord);
            if r % 1000 < self.benign.eintr && self.consec < self.benign_burst() {
                (1, 0)
            } else if (r >> 12) % 1000 < self.benign.short && len > 1 {
                let x = r >> 24;
                // one byte, all but one, or anything between
                let n = match x % 5 {
                    0 => 1,
                    1 => len as u64 - 1,
                    _ => 1 + (x >> 3) % (len as u64 - 1),
                };
                (0, n)
            } else {
                (2, 0)
            }
        };
        match k {
            1 => {
                self.consec += 1;
                self.stats.eintr += 1;
                if self.benign_log.len() < 4000 {
                    self.benign_log.push((ord, 1, 0));
                }
                Err(libc::EINTR)
            }
            0 => {
                self.consec = 0;
                if wr {
                    self.stats.short_w += 1
                } else {
                    self.stats.short_r += 1
                }
                if self.benign_log.len() < 4000 {
                    self.benign_log.push((ord, 0, n));
                }
                Ok(n as usize)
            }
            _ => {
                self.consec = 0;
                Ok(len)
            }
        }
    }
    /// interruptions in a row: usually few, for some seeds storms
    fn benign_burst(&self) -> u32 {
        if mix(self.benign.seed ^ 0xb5) % 6 == 0 {
            64
        } else {
            3
        }
    }
    fn ofd(&mut self, fd: c_int) -> Option<usize> {
        self.fds.get((fd - FD_BASE) as usize).copied().flatten()
    }
    fn new_fd(&mut self, o: usize) -> c_int {
        let i = self.fds.iter().position(|f| f.is_none()).unwrap_or_else(|| {
            self.fds.push(None);
            self.fds.len() - 1
        });
        self.fds[i] = Some(o);
        self.nfds += 1;
        self.stats.opened += 1;
        self.stats.peak_fds = self.stats.peak_fds.max(self.nfds);
        FD_BASE + i as c_int
    }
    fn open(&mut self, path: &str, flags: c_int) -> Result<c_int, c_int> {
        let ino = self.names.get(path).copied();
        let (ord, _) = self.enter(Class::Open, ino)?;
        self.benign(ord, 1, false)?;
        if self.nfds >= self.fd_limit {
            *self.stats.fired.entry("open:EMFILE(limit)".into()).or_insert(0) += 1;
            return Err(libc::EMFILE);
        }
        let acc = flags & libc::O_ACCMODE;
        let wr = acc == libc::O_WRONLY || acc == libc::O_RDWR;
        let rd = acc == libc::O_RDONLY || acc == libc::O_RDWR;
        // a fault in enter may have changed the name space
        let ino = match self.names.get(path).copied() {
            Some(i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                if self.inodes[i].dir && wr {
                    return Err(libc::EISDIR);
                }
                if self.inodes[i].unreadable {
                    return Err(libc::EACCES);
                }
                if flags & libc::O_TRUNC != 0 && wr {
                    self.inodes[i].store.truncate(0);
                    self.mutations += 1;
                    if let Some(o) = &mut self.ops {
                        o.push(Op::Trunc(i, 0));
                    }
                }
                i
            }
            None => {
                if flags & libc::O_CREAT == 0 || !self.parent_ok(path) {
                    return Err(libc::ENOENT);
                }
                self.put(path, Store::default());
                self.mutations += 1;
                let i = self.inodes.len() - 1;
                if let Some(o) = &mut self.ops {
                    o.push(Op::Create(i, path.to_string()));
                }
                i
            }
        };
        let o = Ofd { ino, pos: 0, rd, wr, append: flags & libc::O_APPEND != 0, refs: 1 };
        self.ofds.push(Some(o));
        let oi = self.ofds.len() - 1;
        Ok(self.new_fd(oi))
    }
    fn read(&mut self, fd: c_int, out: &mut [u8], at: Option<u64>) -> Result<usize, c_int> {
        let o = self.ofd(fd).ok_or(libc::EBADF)?;
        let (ino, pos, rd) = {
            let f = self.ofds[o].as_ref().unwrap();
            (f.ino, at.unwrap_or(f.pos), f.rd)
        };
        let (ord, k) = self.enter(Class::Read, Some(ino))?;
        if !rd {
            return Err(libc::EBADF);
        }
        if self.inodes[ino].dir {
            return Err(libc::EISDIR);
        }
        if let Some(Kind::Zero) = k {
            return Ok(0);
        }
        let avail = self.inodes[ino].store.len().saturating_sub(pos).min(out.len() as u64) as usize;
        let n = self.benign(ord, avail, false)?.min(out.len());
        let n = if avail == 0 { 0 } else { n };
        let n = self.inodes[ino].store.read(pos, &mut out[..n]);
        if at.is_none() {
            self.ofds[o].as_mut().unwrap().pos = pos + n as u64;
        }
        self.stats.bytes_read += n as u64;
        Ok(n)
    }
    fn write(&mut self, fd: c_int, data: &[u8], at: Option<u64>) -> Result<usize, c_int> {
        let o = self.ofd(fd).ok_or(libc::EBADF)?;
        let (ino, mut pos, wr, app) = {
            let f = self.ofds[o].as_ref().unwrap();
            (f.ino, at.unwrap_or(f.pos), f.wr, f.append)
        };
        let (ord, k) = self.enter(Class::Write, Some(ino))?;
        if !wr {
            return Err(libc::EBADF);
        }
        if app {
            pos = self.inodes[ino].store.len();
        }
        if pos + data.len() as u64 > MAX_FILE {
            return Err(libc::EFBIG);
        }
        let mut n = match k {
            Some(Kind::Zero) => 0,
            Some(Kind::Full) => {
                // as much as still fits, from now on nothing does
                self.disk_free = Some(0);
                let n = data.len() / 2;
                if n == 0 {
                    return Err(libc::ENOSPC);
                }
                n
            }
            _ => {
                if data.is_empty() {
                    0
                } else {
                    self.benign(ord, data.len(), true)?
                }
            }
        };
        if !matches!(k, Some(Kind::Full)) {
            if let Some(free) = self.disk_free {
                let grow = (pos + n as u64).saturating_sub(self.inodes[ino].store.len());
                if grow > free {
                    n = n.saturating_sub((grow - free) as usize);
                    *self.stats.fired.entry("write:ENOSPC(disk size)".into()).or_insert(0) += 1;
                    if n == 0 && !data.is_empty() {
                        return Err(libc::ENOSPC);
                    }
                }
                let grow = (pos + n as u64).saturating_sub(self.inodes[ino].store.len());
                self.disk_free = Some(free - grow);
            }
        }
        self.inodes[ino].store.write(pos, &data[..n]);
        if n > 0 {
            self.mutations += 1;
            if let Some(l) = &mut self.ops {
                l.push(Op::Write(ino, pos, data[..n].to_vec()));
            }
        }
        if at.is_none() {
            self.ofds[o].as_mut().unwrap().pos = pos + n as u64;
        }
        self.stats.bytes_written += n as u64;
        Ok(n)
    }
    fn seek(&mut self, fd: c_int, off: i64, wh: c_int) -> Result<i64, c_int> {
        let o = self.ofd(fd).ok_or(libc::EBADF)?;
        let ino = self.ofds[o].as_ref().unwrap().ino;
        self.enter(Class::Seek, Some(ino))?;
        let f = self.ofds[o].as_ref().unwrap();
        let base = match wh {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => f.pos as i64,
            libc::SEEK_END => self.inodes[ino].store.len() as i64,
            _ => return Err(libc::EINVAL),
        };
        let p = base.checked_add(off).ok_or(libc::EOVERFLOW)?;
        if p < 0 {
            return Err(libc::EINVAL);
        }
        self.ofds[o].as_mut().unwrap().pos = p as u64;
        Ok(p)
    }
    fn close(&mut self, fd: c_int) -> Result<(), c_int> {
        let o = self.ofd(fd).ok_or(libc::EBADF)?;
        let r = self.enter(Class::Close, None);
        self.fds[(fd - FD_BASE) as usize] = None;
        self.nfds -= 1;
        let f = self.ofds[o].as_mut().unwrap();
        f.refs -= 1;
        if f.refs == 0 {
            self.ofds[o] = None;
            while matches!(self.ofds.last(), Some(None)) {
                self.ofds.pop();
            }
        }
        r.map(|_| ())
    }
    fn dup(&mut self, fd: c_int) -> Result<c_int, c_int> {
        let o = self.ofd(fd).ok_or(libc::EBADF)?;
        self.enter(Class::Dup, None)?;
        if self.nfds >= self.fd_limit {
            *self.stats.fired.entry("open:EMFILE(limit)".into()).or_insert(0) += 1;
            return Err(libc::EMFILE);
        }
        self.ofds[o].as_mut().unwrap().refs += 1;
        Ok(self.new_fd(o))
    }
}

pub fn errno_name(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EINTR => "EINTR",
        libc::EMFILE => "EMFILE",
        libc::ENFILE => "ENFILE",
        libc::EACCES => "EACCES",
        libc::ENOENT => "ENOENT",
        libc::EDQUOT => "EDQUOT",
        libc::EFBIG => "EFBIG",
        libc::EROFS => "EROFS",
        libc::ENOMEM => "ENOMEM",
        libc::ESTALE => "ESTALE",
        libc::ETIMEDOUT => "ETIMEDOUT",
        libc::EINVAL => "EINVAL",
        libc::EBADF => "EBADF",
        libc::EPERM => "EPERM",
        libc::EAGAIN => "EAGAIN",
        libc::EOVERFLOW => "EOVERFLOW",
        libc::ESPIPE => "ESPIPE",
        libc::ENXIO => "ENXIO",
        libc::EISDIR => "EISDIR",
        libc::ELOOP => "ELOOP",
        libc::ENAMETOOLONG => "ENAMETOOLONG",
        libc::EBUSY => "EBUSY",
        _ => "errno",
    }
}

// ---------------------------------------------------------------- scheduler
impl Sim {
    fn latency(&self, tid: usize) -> u64 {
        let r = mix2(self.sched.seed, mix2(self.step, tid as u64));
        match self.sched.profile {
            0 => 1 + r % 1_000,
            1 => {
                if r % 8 == 0 {
                    50_000 + (r >> 8) % 100_000
                } else {
                    1 + (r >> 8) % 500
                }
            }
            2 => {
                let slow = (mix(self.sched.seed) % self.ths.len().max(1) as u64) as usize;
                if tid == slow {
                    20_000 + r % 20_000
                } else {
                    1 + r % 500
                }
            }
            3 => 100,
            _ => {
                if r % 40 == 0 {
                    10_000
                } else {
                    0
                }
            }
        }
    }
    /// picks the thread that runs next; None when every thread is done
    fn pick(&mut self, me: Option<usize>) -> Option<usize> {
        self.step += 1;
        let ready: Vec<usize> = (0..self.ths.len())
            .filter(|i| matches!(self.ths[*i].st, TS::Ready(..)))
            .collect();
        if ready.is_empty() {
            // timed waits expire
            let mut best: Option<(u64, usize)> = None;
            for (i, t) in self.ths.iter().enumerate() {
                if let TS::Futex(_, d) = t.st {
                    if d != u64::MAX && best.map(|b| d < b.0).unwrap_or(true) {
                        best = Some((d, i));
                    }
                }
            }
            if let Some((d, i)) = best {
                self.clock = self.clock.max(d);
                self.ths[i].timed_out = true;
                self.ths[i].st = TS::Ready(d, self.seq);
                return Some(i);
            }
            if self.ths.iter().all(|t| t.st == TS::Done) {
                return None;
            }
            abort_run("deadlock: every simulated thread waits");
        }
        let next = if self.sched.list.is_some() {
            let want = self.sched_map.get(&self.step).map(|t| *t as usize);
            match (want, me) {
                (Some(t), _) if ready.contains(&t) => t,
                (_, Some(m)) if ready.contains(&m) => m,
                _ => ready[0],
            }
        } else {
            *ready
                .iter()
                .min_by_key(|i| match self.ths[**i].st {
                    TS::Ready(w, s) => (w, s),
                    _ => (u64::MAX, u64::MAX),
                })
                .unwrap()
        };
        if let TS::Ready(w, _) = self.ths[next].st {
            self.clock = self.clock.max(w);
        }
        if Some(next) != me {
            self.stats.switches += 1;
            let st = self.step;
            if self.switch_log.len() < 20000 {
                self.switch_log.push((st, next as u64));
            }
            self.ev(50, st, next as u64, 0, 0);
        }
        Some(next)
    }
}

unsafe fn futex_wait_raw(a: &AtomicU32, v: u32) {
    raw6(libc::SYS_futex, a as *const _ as usize, 128usize, v as usize, 0, 0, 0);
}
unsafe fn futex_wake_raw(a: *const AtomicU32) {
    raw6(libc::SYS_futex, a as usize, 129usize, 1, 0, 0, 0);
}
fn baton_wait(p: *const AtomicU32) {
    unsafe {
        let a = &*p;
        while a.swap(0, SeqCst) == 0 {
            futex_wait_raw(a, 0);
        }
    }
}
fn baton_give(p: *const AtomicU32) {
    unsafe {
        (*p).store(1, SeqCst);
        futex_wake_raw(p);
    }
}

static PREEMPT: AtomicU64 = AtomicU64::new(0);
static PSEED: AtomicU64 = AtomicU64::new(0);
static TICKS: AtomicU64 = AtomicU64::new(0);
/// Called by the allocator and by user code of the harness (providers, steps of
/// iterations): preempts the simulated thread at a seeded rate, so that code
/// that makes no call at all is interleaved too.
#[inline]
pub fn tick() {
    let n = PREEMPT.load(std::sync::atomic::Ordering::Relaxed);
    if n == 0 || TID.with(|t| t.get()) < 0 || inside() {
        return;
    }
    let k = TICKS.fetch_add(1, SeqCst);
    if mix2(PSEED.load(SeqCst), k) % n == 0 {
        yield_point();
    }
}

/// a scheduling point of the calling simulated thread
pub fn yield_point() {
    let me = TID.with(|t| t.get());
    if me < 0 || !active() || inside() {
        return;
    }
    let me = me as usize;
    switch(me, None);
}

fn switch(me: usize, block: Option<TS>) {
    let (g, s) = Guard::get();
    let lat = s.latency(me);
    s.seq += 1;
    s.ths[me].st = match block {
        None => TS::Ready(s.clock + lat, s.seq),
        Some(b) => b,
    };
    let next = s.pick(Some(me));
    match next {
        Some(n) if n == me => {
            s.cur = n;
        }
        Some(n) => {
            s.cur = n;
            let a: *const AtomicU32 = &*s.ths[n].go;
            let b: *const AtomicU32 = &*s.ths[me].go;
            drop(g);
            baton_give(a);
            baton_wait(b);
        }
        None => {}
    }
}

static MAIN_GO: AtomicU32 = AtomicU32::new(0);

/// Runs the closures as simulated threads until all are done.
/// Returns for each the result of catch_unwind.
pub fn run_threads<R: Send + 'static>(
    fs: Vec<Box<dyn FnOnce() -> R + Send>>,
) -> Vec<std::thread::Result<R>> {
    let n = fs.len();
    with(|s| {
        s.ths = (0..n)
            .map(|i| Th { st: TS::Ready(s.clock, i as u64), go: Box::new(AtomicU32::new(0)), timed_out: false })
            .collect();
        s.seq = n as u64;
        s.step = 0;
    });
    TICKS.store(0, SeqCst);
    let mut hs = vec![];
    for (i, f) in fs.into_iter().enumerate() {
        let go: usize = with(|s| &*s.ths[i].go as *const AtomicU32 as usize);
        let h = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                baton_wait(go as *const AtomicU32);
                TID.with(|t| t.set(i as i32));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                TID.with(|t| t.set(-1));
                let (g, s) = Guard::get();
                s.ths[i].st = TS::Done;
                let nx = s.pick(None);
                let p: *const AtomicU32 = match nx {
                    Some(n) => {
                        s.cur = n;
                        &*s.ths[n].go
                    }
                    None => &MAIN_GO,
                };
                drop(g);
                baton_give(p);
                r
            })
            .unwrap();
        hs.push(h);
    }
    // start
    let first = with(|s| {
        let f = s.pick(None).unwrap();
        s.cur = f;
        &*s.ths[f].go as *const AtomicU32 as usize
    });
    baton_give(first as *const AtomicU32);
    baton_wait(&MAIN_GO);
    let out = hs.into_iter().map(|h| h.join().unwrap_or_else(|e| Err(e))).collect();
    out
}

// ---------------------------------------------------------------- libc entry points
unsafe fn cpath(p: *const c_char) -> Option<String> {
    if !active() || inside() {
        return None;
    }
    let c = std::ffi::CStr::from_ptr(p);
    let b = c.to_bytes();
    // fast rejection of real paths
    if b.first() == Some(&b'/') && !b.starts_with(b"/simfs") {
        return None;
    }
    let s = String::from_utf8_lossy(b).into_owned();
    let (_g, sim) = Guard::get();
    sim.resolve(&s)
}
fn simfd(fd: c_int) -> bool {
    fd >= FD_BASE && active()
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if let Some(p) = cpath(path) {
        yield_point();
        let (_g, s) = Guard::get();
        let r = s.open(&p, flags);
        let rv = match r {
            Ok(fd) => fd as i64,
            Err(e) => -(e as i64),
        };
        s.ev(1, crate::rng::hash_str(&p), flags as u64, 0, rv);
        s.tr(|| format!("open({p}, {flags:#x}) = {rv}"));
        return match r {
            Ok(fd) => fd,
            Err(e) => fail(e) as c_int,
        };
    }
    pass(libc::SYS_openat, libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(path, flags, mode)
}
unsafe fn do_openat(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if d == libc::AT_FDCWD || (*path as u8) == b'/' {
        return do_open(path, flags, mode);
    }
    pass(libc::SYS_openat, d as usize, path as usize, flags as usize, mode as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_openat(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_openat(d, path, flags, mode)
}

unsafe fn sim_read(fd: c_int, buf: *mut u8, n: size_t, at: Option<u64>) -> ssize_t {
    yield_point();
    let (_g, s) = Guard::get();
    let out = std::slice::from_raw_parts_mut(buf, n);
    let p0 = s.ofd(fd).and_then(|o| s.ofds[o].as_ref().map(|f| (f.ino, at.unwrap_or(f.pos))));
    let r = s.read(fd, out, at);
    let rv = match r {
        Ok(k) => k as i64,
        Err(e) => -(e as i64),
    };
    let (ino, pos) = p0.unwrap_or((0, 0));
    s.ev(2, ino as u64, pos, n as u64, rv);
    s.tr(|| format!("read(fd {}, ino {ino}, off {pos}, {n}) = {rv}", fd - FD_BASE));
    match r {
        Ok(k) => k as ssize_t,
        Err(e) => fail(e),
    }
}
unsafe fn sim_write(fd: c_int, buf: *const u8, n: size_t, at: Option<u64>) -> ssize_t {
    yield_point();
    let (_g, s) = Guard::get();
    let data = std::slice::from_raw_parts(buf, n);
    let p0 = s.ofd(fd).and_then(|o| s.ofds[o].as_ref().map(|f| (f.ino, at.unwrap_or(f.pos))));
    let r = s.write(fd, data, at);
    let rv = match r {
        Ok(k) => k as i64,
        Err(e) => -(e as i64),
    };
    let (ino, pos) = p0.unwrap_or((0, 0));
    s.ev(3, ino as u64, pos, n as u64, rv);
    s.tr(|| format!("write(fd {}, ino {ino}, off {pos}, {n}) = {rv}", fd - FD_BASE));
    match r {
        Ok(k) => k as ssize_t,
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if simfd(fd) {
        return sim_read(fd, buf as *mut u8, n, None);
    }
    pass(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if simfd(fd) {
        return sim_write(fd, buf as *const u8, n, None);
    }
    if let Some(r) = console_write(fd, buf as *const u8, n) {
        return r;
    }
    pass(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0)
}
static CAPTURE: AtomicBool = AtomicBool::new(false);
/// from here on what this process prints goes to the simulated machine: standard
/// output is a file there, whose writes may be split and may fail
pub fn capture_console() {
    with(|s| {
        s.inodes.push(Inode::default());
        let o = Ofd { ino: s.inodes.len() - 1, pos: 0, rd: false, wr: true, append: false, refs: 1 };
        s.ofds.push(Some(o));
        let oi = s.ofds.len() - 1;
        s.fds.push(Some(oi));
        s.console = Some((FD_BASE + s.fds.len() as c_int - 1, vec![]));
    });
    CAPTURE.store(true, SeqCst);
}
/// what was printed
pub fn console() -> (Vec<u8>, Vec<u8>) {
    with(|s| match s.console.take() {
        Some((fd, err)) => match s.ofd(fd).and_then(|o| s.ofds[o].as_ref().map(|f| f.ino)) {
            Some(i) => (s.inodes[i].store.to_vec(), err),
            None => (vec![], err),
        },
        None => (vec![], vec![]),
    })
}
unsafe fn console_write(fd: c_int, buf: *const u8, n: size_t) -> Option<ssize_t> {
    if !CAPTURE.load(SeqCst) || inside() || !(fd == 1 || fd == 2) {
        return None;
    }
    if fd == 1 {
        let out = with(|s| s.console.as_ref().map(|c| c.0))?;
        return Some(sim_write(out, buf, n, None));
    }
    with(|s| s.console.as_mut().map(|c| c.1.extend_from_slice(std::slice::from_raw_parts(buf, n))))?;
    Some(n as ssize_t)
}
/// what a run in a forked process did, for the process that waits for it
pub fn export() -> J {
    with(|s| {
        let t = &s.stats;
        J::obj()
            .set("hash", s.hash)
            .set("calls", t.calls)
            .set("eintr", t.eintr)
            .set("short_r", t.short_r)
            .set("short_w", t.short_w)
            .set("clock", s.clock)
            .set("fired", J::A(s.fired.iter().map(|x| J::from(*x)).collect()))
            .set("kinds", J::A(t.fired.iter().map(|(k, n)| J::A(vec![J::from(k.as_str()), J::from(*n)])).collect()))
            .set("benign", J::A(s.benign_log.iter().map(|(a, b, c)| J::A(vec![J::from(*a), J::from(*b as u64), J::from(*c)])).collect()))
            .set("counts", J::A(s.counts.iter().map(|(p, c)| J::A(vec![J::from(*p as u64), J::A(c.iter().map(|x| J::from(*x)).collect())])).collect()))
            .set("mutations", s.mutations)
            .set("trace", s.trace.as_ref().map(|v| J::A(v.iter().map(|x| J::from(x.as_str())).collect())).unwrap_or(J::Null))
    })
}
pub fn import(j: &J) {
    let n = |j: &J| match j {
        J::I(x) => *x as u64,
        _ => 0,
    };
    with(|s| {
        s.hash = j.u("hash");
        s.stats.calls = j.u("calls");
        s.stats.eintr = j.u("eintr");
        s.stats.short_r = j.u("short_r");
        s.stats.short_w = j.u("short_w");
        s.clock = j.u("clock");
        s.fired = j.a("fired").iter().map(n).collect();
        s.mutations = j.u("mutations");
        if let Some(v) = &mut s.trace {
            *v = j.a("trace").iter().filter_map(|x| if let J::S(t) = x { Some(t.clone()) } else { None }).collect();
        }
        s.stats.fired.clear();
        for k in j.a("kinds") {
            if let J::A(v) = k {
                if let (J::S(name), x) = (&v[0], &v[1]) {
                    s.stats.fired.insert(name.clone(), n(x));
                }
            }
        }
        s.benign_log.clear();
        for k in j.a("benign") {
            if let J::A(v) = k {
                s.benign_log.push((n(&v[0]), n(&v[1]) as u8, n(&v[2])));
            }
        }
        s.counts.clear();
        for k in j.a("counts") {
            if let J::A(v) = k {
                let mut c = [0u64; NCLASS];
                if let J::A(l) = &v[1] {
                    for (i, x) in l.iter().enumerate().take(NCLASS) {
                        c[i] = n(x);
                    }
                }
                s.counts.insert(n(&v[0]) as u32, c);
            }
        }
    })
}
/// the system calls the harness itself needs, past the simulation
pub mod real {
    pub fn pipe() -> Option<(i32, i32)> {
        let mut p = [0i32; 2];
        let r = unsafe { super::raw6(libc::SYS_pipe2, p.as_mut_ptr() as usize, libc::O_CLOEXEC as usize, 0, 0, 0, 0) };
        (r == 0).then_some((p[0], p[1]))
    }
    pub fn close(fd: i32) {
        unsafe { super::raw6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0) };
    }
    pub fn write_all(fd: i32, mut d: &[u8]) {
        while !d.is_empty() {
            let r = unsafe { super::raw6(libc::SYS_write, fd as usize, d.as_ptr() as usize, d.len(), 0, 0, 0) };
            if r == -(libc::EINTR as isize) {
                continue;
            }
            if r <= 0 {
                return;
            }
            d = &d[r as usize..];
        }
    }
    pub fn read_all(fd: i32) -> Vec<u8> {
        let mut out = vec![];
        let mut b = vec![0u8; 1 << 16];
        loop {
            let r = unsafe { super::raw6(libc::SYS_read, fd as usize, b.as_mut_ptr() as usize, b.len(), 0, 0, 0) };
            if r == -(libc::EINTR as isize) {
                continue;
            }
            if r <= 0 {
                return out;
            }
            out.extend_from_slice(&b[..r as usize]);
        }
    }
    /// (exit code, signal)
    pub fn wait(pid: i32) -> (i32, i32) {
        let mut st = 0i32;
        loop {
            let r = unsafe { super::raw6(libc::SYS_wait4, pid as usize, &mut st as *mut i32 as usize, 0, 0, 0, 0) };
            if r != -(libc::EINTR as isize) {
                return (libc::WEXITSTATUS(st), if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 });
            }
        }
    }
}
unsafe fn gather(iov: *const libc::iovec, cnt: c_int) -> (Vec<u8>, usize) {
    let v = std::slice::from_raw_parts(iov, cnt as usize);
    let mut out = vec![];
    for x in v {
        out.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
    }
    let n = out.len();
    (out, n)
}
unsafe fn vread(fd: c_int, iov: *const libc::iovec, cnt: c_int, at: Option<u64>) -> ssize_t {
    let v = std::slice::from_raw_parts(iov, cnt as usize);
    let total: usize = v.iter().map(|x| x.iov_len).sum();
    let mut buf = vec![0u8; total];
    let r = sim_read(fd, buf.as_mut_ptr(), total, at);
    if r > 0 {
        let mut o = 0usize;
        for x in v {
            let k = x.iov_len.min(r as usize - o);
            std::ptr::copy_nonoverlapping(buf[o..].as_ptr(), x.iov_base as *mut u8, k);
            o += k;
            if o == r as usize {
                break;
            }
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if simfd(fd) {
        return vread(fd, iov, cnt, None);
    }
    pass(libc::SYS_readv, fd as usize, iov as usize, cnt as usize, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if simfd(fd) {
        let (b, n) = gather(iov, cnt);
        return sim_write(fd, b.as_ptr(), n, None);
    }
    if CAPTURE.load(SeqCst) && (fd == 1 || fd == 2) {
        let (b, n) = gather(iov, cnt);
        if let Some(r) = console_write(fd, b.as_ptr(), n) {
            return r;
        }
    }
    pass(libc::SYS_writev, fd as usize, iov as usize, cnt as usize, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if simfd(fd) {
        if off < 0 {
            return fail(libc::EINVAL);
        }
        return sim_read(fd, buf as *mut u8, n, Some(off as u64));
    }
    pass(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    pread64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if simfd(fd) {
        if off < 0 {
            return fail(libc::EINVAL);
        }
        return sim_write(fd, buf as *const u8, n, Some(off as u64));
    }
    pass(libc::SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    pwrite64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn preadv64(fd: c_int, iov: *const libc::iovec, cnt: c_int, off: off64_t) -> ssize_t {
    if simfd(fd) {
        return vread(fd, iov, cnt, Some(off as u64));
    }
    pass(libc::SYS_preadv, fd as usize, iov as usize, cnt as usize, off as usize, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn preadv(fd: c_int, iov: *const libc::iovec, cnt: c_int, off: off64_t) -> ssize_t {
    preadv64(fd, iov, cnt, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwritev64(fd: c_int, iov: *const libc::iovec, cnt: c_int, off: off64_t) -> ssize_t {
    if simfd(fd) {
        let (b, n) = gather(iov, cnt);
        return sim_write(fd, b.as_ptr(), n, Some(off as u64));
    }
    pass(libc::SYS_pwritev, fd as usize, iov as usize, cnt as usize, off as usize, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn pwritev(fd: c_int, iov: *const libc::iovec, cnt: c_int, off: off64_t) -> ssize_t {
    pwritev64(fd, iov, cnt, off)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if simfd(fd) {
        yield_point();
        let (_g, s) = Guard::get();
        let r = s.seek(fd, off, wh);
        let rv = match r {
            Ok(k) => k,
            Err(e) => -(e as i64),
        };
        s.ev(4, fd as u64, off as u64, wh as u64, rv);
        s.tr(|| format!("lseek(fd {}, {off}, {wh}) = {rv}", fd - FD_BASE));
        return match r {
            Ok(k) => k,
            Err(e) => fail(e) as off64_t,
        };
    }
    pass(libc::SYS_lseek, fd as usize, off as usize, wh as usize, 0, 0, 0) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    lseek64(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if simfd(fd) {
        yield_point();
        let (_g, s) = Guard::get();
        let r = s.close(fd);
        s.ev(5, fd as u64, 0, 0, 0);
        s.tr(|| format!("close(fd {})", fd - FD_BASE));
        return match r {
            Ok(()) => 0,
            Err(e) => fail(e) as c_int,
        };
    }
    pass(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if simfd(fd) {
        let (_g, s) = Guard::get();
        if s.ofd(fd).is_none() {
            return fail(libc::EBADF) as c_int;
        }
        if cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC {
            let r = s.dup(fd);
            s.ev(6, fd as u64, 0, 0, 0);
            return match r {
                Ok(n) => n,
                Err(e) => fail(e) as c_int,
            };
        }
        return 0;
    }
    pass(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if simfd(fd) {
        return fcntl(fd, libc::F_DUPFD, 0);
    }
    pass(libc::SYS_dup, fd as usize, 0, 0, 0, 0, 0) as c_int
}

unsafe fn stat_ino(s: &mut Sim, ino: usize) -> Result<(u32, u64), c_int> {
    s.enter(Class::Stat, Some(ino))?;
    let i = &s.inodes[ino];
    Ok(if i.dir { (libc::S_IFDIR | 0o755, 4096) } else { (libc::S_IFREG | 0o644, i.store.len()) })
}
unsafe fn fill_stat(r: Result<(u32, u64), c_int>, ino: u64, st: *mut libc::stat64) -> c_int {
    match r {
        Ok((m, l)) => {
            std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
            (*st).st_mode = m;
            (*st).st_size = l as i64;
            (*st).st_nlink = 1;
            (*st).st_ino = ino + 1;
            (*st).st_blksize = 4096;
            (*st).st_blocks = l.div_ceil(512) as i64;
            0
        }
        Err(e) => fail(e) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if simfd(fd) {
        yield_point();
        let (_g, s) = Guard::get();
        let ino = match s.ofd(fd) {
            Some(o) => s.ofds[o].as_ref().unwrap().ino,
            None => return fail(libc::EBADF) as c_int,
        };
        let r = stat_ino(s, ino);
        s.ev(7, ino as u64, 0, 0, 0);
        return fill_stat(r, ino as u64, st);
    }
    pass(libc::SYS_fstat, fd as usize, st as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    if let Some(p) = cpath(path) {
        yield_point();
        let (_g, s) = Guard::get();
        let ino = match s.names.get(&p) {
            Some(i) => *i,
            None => return fail(libc::ENOENT) as c_int,
        };
        let r = stat_ino(s, ino);
        s.ev(8, ino as u64, 0, 0, 0);
        return fill_stat(r, ino as u64, st);
    }
    pass(libc::SYS_stat, path as usize, st as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, st: *mut libc::stat64) -> c_int {
    stat64(path, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    if active() && cpath(path).is_some() {
        return stat64(path, st);
    }
    pass(libc::SYS_lstat, path as usize, st as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, st: *mut libc::stat64) -> c_int {
    lstat64(path, st)
}
#[no_mangle]
pub unsafe extern "C" fn statx(
    d: c_int,
    path: *const c_char,
    flags: c_int,
    mask: u32,
    st: *mut libc::statx,
) -> c_int {
    let mut target = None;
    if simfd(d) {
        let (_g, s) = Guard::get();
        match s.ofd(d) {
            Some(o) => target = Some(s.ofds[o].as_ref().unwrap().ino),
            None => return fail(libc::EBADF) as c_int,
        }
    } else if !path.is_null() && (d == libc::AT_FDCWD || *path as u8 == b'/') {
        if let Some(p) = cpath(path) {
            let (_g, s) = Guard::get();
            match s.names.get(&p) {
                Some(i) => target = Some(*i),
                None => return fail(libc::ENOENT) as c_int,
            }
        }
    }
    if let Some(ino) = target {
        yield_point();
        let (_g, s) = Guard::get();
        let r = stat_ino(s, ino);
        s.ev(9, ino as u64, 0, 0, 0);
        return match r {
            Ok((m, l)) => {
                std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::statx>());
                (*st).stx_mask = 0x7ff;
                (*st).stx_mode = m as u16;
                (*st).stx_size = l;
                (*st).stx_nlink = 1;
                (*st).stx_ino = ino as u64 + 1;
                (*st).stx_blksize = 4096;
                (*st).stx_blocks = l.div_ceil(512);
                0
            }
            Err(e) => fail(e) as c_int,
        };
    }
    pass(libc::SYS_statx, d as usize, path as usize, flags as usize, mask as usize, st as usize, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if simfd(fd) {
        yield_point();
        let (_g, s) = Guard::get();
        let ino = match s.ofd(fd) {
            Some(o) => s.ofds[o].as_ref().unwrap().ino,
            None => return fail(libc::EBADF) as c_int,
        };
        if let Err(e) = s.enter(Class::Trunc, Some(ino)) {
            return fail(e) as c_int;
        }
        if len < 0 || len as u64 > MAX_FILE {
            return fail(libc::EINVAL) as c_int;
        }
        s.inodes[ino].store.truncate(len as u64);
        s.mutations += 1;
        if let Some(o) = &mut s.ops {
            o.push(Op::Trunc(ino, len as u64));
        }
        s.ev(10, ino as u64, len as u64, 0, 0);
        s.tr(|| format!("ftruncate(fd {}, {len})", fd - FD_BASE));
        return 0;
    }
    pass(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
unsafe fn sync_fd(fd: c_int, n: c_long) -> c_int {
    if simfd(fd) {
        yield_point();
        let (_g, s) = Guard::get();
        let ino = match s.ofd(fd) {
            Some(o) => s.ofds[o].as_ref().unwrap().ino,
            None => return fail(libc::EBADF) as c_int,
        };
        let r = s.enter(Class::Sync, Some(ino));
        s.ev(11, ino as u64, 0, 0, 0);
        return match r {
            Ok(_) => 0,
            Err(e) => fail(e) as c_int,
        };
    }
    pass(n, fd as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync_fd(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync_fd(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: off64_t, len: off64_t) -> c_int {
    if simfd(fd) {
        return fail(libc::EOPNOTSUPP) as c_int;
    }
    pass(libc::SYS_fallocate, fd as usize, mode as usize, off as usize, len as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if let Some(p) = cpath(path) {
        yield_point();
        let (_g, s) = Guard::get();
        if let Err(e) = s.enter(Class::Dir, None) {
            return fail(e) as c_int;
        }
        s.ev(12, crate::rng::hash_str(&p), 0, 0, 0);
        s.tr(|| format!("unlink({p})"));
        if s.names.remove(&p).is_none() {
            return fail(libc::ENOENT) as c_int;
        }
        s.mutations += 1;
        if let Some(o) = &mut s.ops {
            o.push(Op::Unlink(p));
        }
        return 0;
    }
    pass(libc::SYS_unlink, path as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let (Some(p), Some(q)) = (cpath(a), cpath(b)) {
        yield_point();
        let (_g, s) = Guard::get();
        if let Err(e) = s.enter(Class::Dir, None) {
            return fail(e) as c_int;
        }
        s.ev(13, crate::rng::hash_str(&p), crate::rng::hash_str(&q), 0, 0);
        s.tr(|| format!("rename({p}, {q})"));
        match s.names.remove(&p) {
            None => return fail(libc::ENOENT) as c_int,
            Some(i) => {
                s.names.insert(q.clone(), i);
            }
        }
        s.mutations += 1;
        if let Some(o) = &mut s.ops {
            o.push(Op::Rename(p, q));
        }
        return 0;
    }
    pass(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if let Some(p) = cpath(path) {
        yield_point();
        let (_g, s) = Guard::get();
        let ino = match s.names.get(&p) {
            Some(i) => *i,
            None => return fail(libc::ENOENT) as c_int,
        };
        let r = stat_ino(s, ino);
        s.ev(8, ino as u64, 0, 0, 0);
        return match r {
            Ok(_) => 0,
            Err(e) => fail(e) as c_int,
        };
    }
    pass(libc::SYS_access, path as usize, mode as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if let Some(p) = cpath(path) {
        let (_g, s) = Guard::get();
        if s.names.contains_key(&p) {
            return fail(libc::EEXIST) as c_int;
        }
        let ino = s.inodes.len();
        s.inodes.push(Inode { dir: true, ..Default::default() });
        s.names.insert(p, ino);
        s.mutations += 1;
        return 0;
    }
    pass(libc::SYS_mkdir, path as usize, mode as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chdir(path: *const c_char) -> c_int {
    if let Some(p) = cpath(path) {
        let (_g, s) = Guard::get();
        match s.names.get(&p) {
            Some(i) if s.inodes[*i].dir => {
                s.cwd = Some(p);
                return 0;
            }
            Some(_) => return fail(libc::ENOTDIR) as c_int,
            None => return fail(libc::ENOENT) as c_int,
        }
    }
    pass(libc::SYS_chdir, path as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if active() && !inside() {
        let (_g, s) = Guard::get();
        if let Some(c) = &s.cwd {
            if buf.is_null() || c.len() + 1 > n {
                set_errno(libc::ERANGE);
                return std::ptr::null_mut();
            }
            std::ptr::copy_nonoverlapping(c.as_ptr(), buf as *mut u8, c.len());
            *buf.add(c.len()) = 0;
            return buf;
        }
    }
    let r = pass(libc::SYS_getcwd, buf as usize, n, 0, 0, 0, 0);
    if r < 0 {
        std::ptr::null_mut()
    } else {
        buf
    }
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if let Some(p) = cpath(path) {
        let (_g, s) = Guard::get();
        if !s.names.contains_key(&p) {
            set_errno(libc::ENOENT);
            return std::ptr::null_mut();
        }
        let o = if out.is_null() { libc::malloc(p.len() + 1) as *mut c_char } else { out };
        std::ptr::copy_nonoverlapping(p.as_ptr(), o as *mut u8, p.len());
        *o.add(p.len()) = 0;
        return o;
    }
    // real paths: through the kernel's view of an O_PATH descriptor
    let fd = pass(libc::SYS_openat, libc::AT_FDCWD as usize, path as usize, libc::O_PATH as usize, 0, 0, 0);
    if fd < 0 {
        return std::ptr::null_mut();
    }
    let link = format!("/proc/self/fd/{fd}\0");
    let o = if out.is_null() { libc::malloc(4097) as *mut c_char } else { out };
    let r = pass(libc::SYS_readlink, link.as_ptr() as usize, o as usize, 4096, 0, 0, 0);
    raw6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0);
    if r < 0 {
        return std::ptr::null_mut();
    }
    *o.add(r as usize) = 0;
    o
}

// ---------------------------------------------------------------- randomness and time
unsafe fn sim_random(buf: *mut u8, n: usize) {
    let (_g, s) = Guard::get();
    for i in 0..n {
        s.rand = mix(s.rand.wrapping_add(i as u64 + 1));
        *buf.add(i) = s.rand as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: u32) -> ssize_t {
    if active() && !inside() {
        sim_random(buf as *mut u8, n);
        return n as ssize_t;
    }
    pass(libc::SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, n: size_t) -> c_int {
    if getrandom(buf, n, 0) < 0 {
        -1
    } else {
        0
    }
}
fn now_ns() -> u64 {
    let (_g, s) = Guard::get();
    // looking at the clock takes a little time too
    s.clock += 50;
    s.clock_base + s.clock
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if active() && !inside() {
        let t = now_ns();
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    pass(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if active() && !inside() {
        let t = now_ns();
        (*tv).tv_sec = (t / 1_000_000_000) as i64;
        (*tv).tv_usec = (t % 1_000_000_000 / 1000) as i64;
        return 0;
    }
    pass(libc::SYS_gettimeofday, tv as usize, tz as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut libc::time_t) -> libc::time_t {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !p.is_null() {
        *p = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(rq: *const libc::timespec, rm: *mut libc::timespec) -> c_int {
    if active() && !inside() {
        sim_sleep((*rq).tv_sec as u64 * 1_000_000_000 + (*rq).tv_nsec as u64);
        return 0;
    }
    pass(libc::SYS_nanosleep, rq as usize, rm as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: libc::clockid_t,
    flags: c_int,
    rq: *const libc::timespec,
    rm: *mut libc::timespec,
) -> c_int {
    if active() && !inside() {
        let mut d = (*rq).tv_sec as u64 * 1_000_000_000 + (*rq).tv_nsec as u64;
        if flags & libc::TIMER_ABSTIME != 0 {
            d = d.saturating_sub(now_ns());
        }
        sim_sleep(d);
        return 0;
    }
    let r = raw6(libc::SYS_clock_nanosleep, id as usize, flags as usize, rq as usize, rm as usize, 0, 0);
    -r as c_int
}
fn sim_sleep(d: u64) {
    let me = TID.with(|t| t.get());
    if me < 0 {
        with(|s| s.clock += d);
        return;
    }
    let b = with(|s| {
        s.seq += 1;
        TS::Ready(s.clock + d, s.seq)
    });
    switch(me as usize, Some(b));
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() && TID.with(|t| t.get()) >= 0 && !inside() {
        yield_point();
        return 0;
    }
    raw0(libc::SYS_sched_yield) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> c_long {
    if active() && !inside() {
        if n == libc::SYS_getrandom {
            sim_random(a as *mut u8, b);
            return b as c_long;
        }
        if n == libc::SYS_futex && TID.with(|t| t.get()) >= 0 {
            let me = TID.with(|t| t.get()) as usize;
            let op = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
            if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
                let v = (*(a as *const AtomicU32)).load(SeqCst);
                if v != c as u32 {
                    return fail(libc::EAGAIN) as c_long;
                }
                let dl = if d == 0 {
                    u64::MAX
                } else {
                    let ts = &*(d as *const libc::timespec);
                    let t = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                    with(|s| {
                        if op == libc::FUTEX_WAIT {
                            s.clock + t
                        } else {
                            t.saturating_sub(s.clock_base)
                        }
                    })
                };
                with(|s| s.ths[me].timed_out = false);
                switch(me, Some(TS::Futex(a, dl)));
                if with(|s| s.ths[me].timed_out) {
                    return fail(libc::ETIMEDOUT) as c_long;
                }
                return 0;
            }
            if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
                let mut woken = 0;
                with(|s| {
                    for i in 0..s.ths.len() {
                        if woken < c as u32 as i64 {
                            if let TS::Futex(x, _) = s.ths[i].st {
                                if x == a {
                                    s.seq += 1;
                                    s.ths[i].st = TS::Ready(s.clock, s.seq);
                                    woken += 1;
                                }
                            }
                        }
                    }
                });
                yield_point();
                return woken as c_long;
            }
        }
    }
    pass(n, a, b, c, d, e, f) as c_long
}
