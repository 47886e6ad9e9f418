//! Runs cases in forked processes, spreads them over workers, minimises
//! failures, writes replay files and evidence.
use crate::json::J;
use crate::rng::{hash_str, mix2, Rng};
use crate::simos::{self, Benign, Config, Sched, Stats};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
    pub narrowed: Option<J>,
}
impl Viol {
    pub fn new(class: impl Into<String>, msg: impl Into<String>) -> Viol {
        Viol { class: class.into(), msg: msg.into(), narrowed: None }
    }
}
pub type Res<T> = Result<T, Viol>;
#[macro_export]
macro_rules! viol {
    ($c:expr, $($a:tt)*) => { return Err($crate::engine::Viol::new($c, format!($($a)*))) };
}

pub struct Plan {
    /// cases of this tier
    pub cases: u64,
    /// wall-clock cap for generating and running cases
    pub wall: u64,
    /// CPU seconds a case may use before it counts as a hang
    pub cpu: u64,
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    fn plan(&self, tier: Tier) -> Plan;
    fn gen(&self, r: &mut Rng, idx: u64, tier: Tier) -> J;
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()>;
    /// what the cases are and what makes one non-trivial
    /// address space of a run
    fn memory(&self) -> u64 {
        8 << 30
    }
    fn rule(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "exploration"
    }
    /// runs once in each worker before cases are forked
    fn prepare(&self) {}
}

#[derive(Default)]
pub struct Cx {
    pub runs: u64,
    pub nontrivial: u64,
    pub probes: BTreeMap<String, u64>,
    pub fired: BTreeMap<String, u64>,
    pub hashes: Vec<u64>,
    pub agg: Stats,
    pub replaying: bool,
    pub traces: Vec<String>,
    pub fingerprint: u64,
    running: bool,
}

impl Cx {
    /// starts a simulated run on a fresh machine
    pub fn boot(&mut self, cfg: &Config) {
        self.finish();
        simos::reset(cfg);
        if self.replaying {
            simos::with(|s| s.trace = Some(vec![]));
        }
        self.running = true;
    }
    pub fn finish(&mut self) {
        if !self.running {
            return;
        }
        self.running = false;
        let st = simos::stats();
        self.runs += 1;
        self.agg.calls += st.calls;
        self.agg.eintr += st.eintr;
        self.agg.short_r += st.short_r;
        self.agg.short_w += st.short_w;
        self.agg.switches += st.switches;
        self.agg.clock_ns += st.clock_ns;
        self.agg.opened += st.opened;
        self.agg.bytes_read += st.bytes_read;
        self.agg.bytes_written += st.bytes_written;
        self.agg.peak_fds = self.agg.peak_fds.max(st.peak_fds);
        for (k, v) in &st.fired {
            *self.fired.entry(k.clone()).or_insert(0) += v;
        }
        let h = simos::event_hash();
        self.fingerprint = mix2(self.fingerprint, h);
        if st.calls > 0 && (!st.fired.is_empty() || st.eintr + st.short_r + st.short_w + st.switches > 0) {
            self.nontrivial += 1;
            self.hashes.push(h);
        }
        if self.replaying {
            if let Some(t) = simos::with(|s| s.trace.take()) {
                self.traces = t;
            }
        }
    }
    /// a rare condition was reached
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn probe_n(&mut self, k: &str, n: u64) {
        *self.probes.entry(k.to_string()).or_insert(0) += n;
    }
}

// ------------------------------------------------------------------ configuration in cases
pub fn cfg_of(case: &J) -> Config {
    let io = case.get("io");
    let mut b = Benign { seed: io.u("seed"), short: io.u("short"), eintr: io.u("eintr"), list: None };
    if let J::A(l) = io.get("list") {
        b.list = Some(
            l.iter()
                .filter_map(|e| match e {
                    J::A(v) if v.len() == 3 => Some((v[0].as_i() as u64, v[1].as_i() as u8, v[2].as_i() as u64)),
                    _ => None,
                })
                .collect(),
        );
    }
    let sc = case.get("sched");
    let mut s = Sched { seed: sc.u("seed"), profile: sc.u("profile"), preempt: sc.u("preempt"), list: None };
    if let J::A(l) = sc.get("list") {
        s.list = Some(
            l.iter()
                .filter_map(|e| match e {
                    J::A(v) if v.len() == 2 => Some((v[0].as_i() as u64, v[1].as_i() as u64)),
                    _ => None,
                })
                .collect(),
        );
    }
    Config { benign: b, sched: s, rand: case.u("rand_seed").max(1), ..Config::default() }
}
/// harmless I/O behaviour of a case, swarm style
pub fn gen_io(r: &mut Rng) -> J {
    let (short, eintr) = match r.below(6) {
        0 => (0, 0),
        1 => (r.range(1, 900), 0),
        2 => (0, r.range(1, 500)),
        3 => (30, 30),
        4 if r.below(4) == 0 => (r.range(0, 300), 900),
        _ => (r.range(1, 500), r.range(1, 300)),
    };
    J::obj().set("seed", r.seed()).set("short", short).set("eintr", eintr)
}
pub fn no_io() -> J {
    J::obj().set("seed", 1).set("short", 0).set("eintr", 0)
}
pub fn gen_sched(r: &mut Rng) -> J {
    J::obj().set("seed", r.seed()).set("profile", r.below(5)).set("preempt", *r.pick(&[0u64, 7, 40, 300, 3000]))
}

// ------------------------------------------------------------------ panics
thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} at {l}")));
    }));
}
/// result of `f`, or the panic message
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}
pub fn last_panic() -> Option<String> {
    PANIC.with(|p| p.borrow_mut().take())
}

// ------------------------------------------------------------------ one case in one process
#[derive(Clone, Debug)]
pub enum Verdict {
    Pass,
    Fail { class: String, msg: String, narrowed: Option<J>, io_list: J, sw_list: J },
    /// the harness itself could not do its work
    Broken(String),
}
pub struct CaseOut {
    pub verdict: Verdict,
    pub cx: Cx,
}

fn stats_json(cx: &Cx) -> J {
    let mut p = J::obj();
    for (k, v) in &cx.probes {
        p.put(k, *v);
    }
    let mut f = J::obj();
    for (k, v) in &cx.fired {
        f.put(k, *v);
    }
    let a = &cx.agg;
    J::obj()
        .set("runs", cx.runs)
        .set("nontrivial", cx.nontrivial)
        .set("probes", p)
        .set("fired", f)
        .set("fp", format!("{:x}", cx.fingerprint))
        .set("hashes", J::A(cx.hashes.iter().map(|h| J::S(format!("{h:x}"))).collect()))
        .set(
            "agg",
            J::A(
                [a.calls, a.eintr, a.short_r, a.short_w, a.switches, a.clock_ns, a.opened, a.bytes_read, a.bytes_written, a.peak_fds]
                    .iter()
                    .map(|v| J::I(*v as i64))
                    .collect(),
            ),
        )
        .set("trace", J::A(cx.traces.iter().map(|t| J::S(t.clone())).collect()))
}
fn stats_from(j: &J) -> Cx {
    let mut cx = Cx { runs: j.u("runs"), nontrivial: j.u("nontrivial"), ..Default::default() };
    for (src, dst) in [("probes", &mut cx.probes), ("fired", &mut cx.fired)] {
        if let J::O(o) = j.get(src) {
            for (k, v) in o {
                dst.insert(k.clone(), v.as_i() as u64);
            }
        }
    }
    let v: Vec<u64> = j.a("agg").iter().map(|x| x.as_i() as u64).collect();
    if v.len() == 10 {
        cx.agg = Stats {
            calls: v[0],
            eintr: v[1],
            short_r: v[2],
            short_w: v[3],
            switches: v[4],
            clock_ns: v[5],
            opened: v[6],
            bytes_read: v[7],
            bytes_written: v[8],
            peak_fds: v[9],
            fired: BTreeMap::new(),
        };
    }
    cx.fingerprint = u64::from_str_radix(j.s("fp"), 16).unwrap_or(0);
    cx.hashes = j.a("hashes").iter().filter_map(|h| match h {
        J::S(s) => u64::from_str_radix(s, 16).ok(),
        _ => None,
    }).collect();
    cx.traces = j.a("trace").iter().filter_map(|h| match h {
        J::S(s) => Some(s.clone()),
        _ => None,
    }).collect();
    cx
}

fn child_main(p: &'static dyn Prop, case: &J, replaying: bool, fd: i32, cpu: u64) -> ! {
    simos::set_report_fd(fd);
    unsafe {
        let set = |r, n: u64| {
            let l = libc::rlimit { rlim_cur: n, rlim_max: n };
            libc::setrlimit(r, &l);
        };
        set(libc::RLIMIT_CPU, cpu);
        set(libc::RLIMIT_CORE, 0);
        set(libc::RLIMIT_AS, p.memory());
        // messages of aborting runs are part of the verdict, not of our output
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR, 0);
        libc::dup2(n, 1);
        libc::dup2(n, 2);
    }
    simos::start();
    let case = case.clone();
    // a fresh thread: hash seeds of the thread come from the simulator
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut cx = Cx { replaying, ..Default::default() };
            let r = guard(|| p.run(&case, &mut cx));
            let (mut io_list, mut sw_list) = (J::Null, J::Null);
            if !matches!(r, Ok(Ok(()))) {
                simos::with(|s| {
                    io_list = J::A(
                        s.benign_log.iter().map(|(a, b, c)| J::A(vec![J::I(*a as i64), J::I(*b as i64), J::I(*c as i64)])).collect(),
                    );
                    sw_list = J::A(s.switch_log.iter().map(|(a, b)| J::A(vec![J::I(*a as i64), J::I(*b as i64)])).collect());
                });
            }
            cx.finish();
            let mut j = stats_json(&cx);
            match r {
                Ok(Ok(())) => {}
                Ok(Err(v)) => {
                    j.put("class", v.class.as_str());
                    j.put("msg", v.msg.as_str());
                    if let Some(n) = v.narrowed {
                        j.put("narrowed", n);
                    }
                }
                Err(m) => {
                    j.put("class", if m.starts_with("harness") { "harness" } else { "panic" });
                    j.put("msg", m.as_str());
                }
            }
            j.put("io_list", io_list);
            j.put("sw_list", sw_list);
            j
        })
        .unwrap();
    let j = match h.join() {
        Ok(j) => j,
        Err(_) => J::obj().set("class", "harness").set("msg", "case thread died"),
    };
    let s = j.to_string() + "\n";
    let mut b = s.as_bytes();
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            break;
        }
        b = &b[n as usize..];
    }
    simos::exit_now(0)
}

pub fn run_case(p: &'static dyn Prop, case: &J, replaying: bool, cpu: u64) -> CaseOut {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return CaseOut { verdict: Verdict::Broken("pipe".into()), cx: Cx::default() };
        }
        let pid = libc::fork();
        if pid < 0 {
            libc::close(fds[0]);
            libc::close(fds[1]);
            return CaseOut { verdict: Verdict::Broken("fork".into()), cx: Cx::default() };
        }
        if pid == 0 {
            libc::close(fds[0]);
            child_main(p, case, replaying, fds[1], cpu);
        }
        libc::close(fds[1]);
        let mut out: Vec<u8> = vec![];
        let deadline = Instant::now() + Duration::from_secs(cpu * 6 + 60);
        let mut stuck = false;
        let mut buf = [0u8; 65536];
        loop {
            let left = deadline.saturating_duration_since(Instant::now()).as_millis() as i32;
            let mut pf = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut pf, 1, left.max(0));
            if r == 0 {
                stuck = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let fail = |class: &str, msg: String, cx: Cx| CaseOut {
            verdict: Verdict::Fail { class: class.into(), msg, narrowed: None, io_list: J::Null, sw_list: J::Null },
            cx,
        };
        if stuck {
            return fail("stuck", format!("the run made no progress for {} s", cpu * 6 + 60), Cx::default());
        }
        let text = String::from_utf8_lossy(&out).into_owned();
        let j = match J::parse(text.trim()) {
            Ok(j) => j,
            Err(_) => {
                if libc::WIFSIGNALED(st) {
                    let s = libc::WTERMSIG(st);
                    let (c, m) = match s {
                        libc::SIGXCPU | libc::SIGKILL => ("hang", "the run used up its CPU time or memory".to_string()),
                        libc::SIGABRT => ("abort", "the process aborted (allocation failure or double panic)".into()),
                        libc::SIGSEGV | libc::SIGBUS => ("segv", "the process died of a memory fault (stack overflow?)".into()),
                        s => ("signal", format!("the process died of signal {s}")),
                    };
                    return fail(c, m, Cx::default());
                }
                return CaseOut { verdict: Verdict::Broken(format!("no result from the run (status {st}) {text}")), cx: Cx::default() };
            }
        };
        if let J::S(m) = j.get("fatal") {
            let class = m.split(':').next().unwrap_or("fatal").to_string();
            return fail(&class, m.clone(), Cx::default());
        }
        let cx = stats_from(&j);
        let v = match j.get("class") {
            J::S(c) if c == "harness" => Verdict::Broken(j.s("msg").to_string()),
            J::S(c) => Verdict::Fail {
                class: c.clone(),
                msg: j.s("msg").to_string(),
                narrowed: match j.get("narrowed") {
                    J::Null => None,
                    n => Some(n.clone()),
                },
                io_list: j.get("io_list").clone(),
                sw_list: j.get("sw_list").clone(),
            },
            _ => Verdict::Pass,
        };
        CaseOut { verdict: v, cx }
    }
}

// ------------------------------------------------------------------ minimisation
fn candidates(j: &J, key: &str, out: &mut Vec<J>, wrap: &dyn Fn(J) -> J) {
    match j {
        J::A(v) => {
            let n = v.len();
            let mut k = n;
            while k >= 1 {
                let mut at = 0;
                while at < n {
                    let mut w = v.clone();
                    w.drain(at..(at + k).min(n));
                    out.push(wrap(J::A(w)));
                    at += k;
                    if n > 64 && k < n / 64 {
                        break;
                    }
                }
                k /= 2;
            }
            for (i, e) in v.iter().enumerate() {
                if matches!(e, J::A(_)) || n > 40 {
                    continue; // tuples are atoms
                }
                let vv = v.clone();
                candidates(e, "", out, &|x| {
                    let mut w = vv.clone();
                    w[i] = x;
                    wrap(J::A(w))
                });
            }
        }
        J::O(o) => {
            for (i, (k, e)) in o.iter().enumerate() {
                if k.ends_with("seed") || k == "prop" || k == "kind" {
                    continue;
                }
                let oo = o.clone();
                candidates(e, k, out, &|x| {
                    let mut w = oo.clone();
                    w[i].1 = x;
                    wrap(J::O(w))
                });
            }
        }
        J::I(n) if *n > 0 => {
            let _ = key;
            let mut c = vec![0, 1, n / 2, n - n / 4, n - 1];
            c.dedup();
            for x in c {
                if x < *n {
                    out.push(wrap(J::I(x)));
                }
            }
        }
        J::B(true) => out.push(wrap(J::B(false))),
        J::S(s) if s.len() > 12 && s.is_ascii() && !s.contains("simfs") && key == "name" => {
            out.push(wrap(J::S(s[..s.len() / 2].to_string())));
            out.push(wrap(J::S(s[..s.len() - 1].to_string())));
        }
        _ => {}
    }
}

fn same_class(v: &Verdict, class: &str) -> bool {
    matches!(v, Verdict::Fail { class: c, .. } if c == class)
}

/// smaller case failing in the same way
pub fn minimise(p: &'static dyn Prop, case: J, first: &Verdict, budget: Duration, cpu: u64) -> (J, u64) {
    let t0 = Instant::now();
    let Verdict::Fail { class, narrowed, io_list, sw_list, .. } = first else { return (case, 0) };
    let mut cur = case;
    let mut tried = 0u64;
    let mut lists = (io_list.clone(), sw_list.clone());
    let mut test = |c: &J, lists: &mut (J, J)| -> bool {
        tried += 1;
        let o = run_case(p, c, false, cpu);
        if same_class(&o.verdict, class) {
            if let Verdict::Fail { io_list, sw_list, .. } = o.verdict {
                *lists = (io_list, sw_list);
            }
            true
        } else {
            false
        }
    };
    if let Some(n) = narrowed {
        if test(n, &mut lists) {
            cur = n.clone();
        }
    }
    // the seeds of harmless behaviour and of the schedule become explicit lists
    for (k, l) in [("io", lists.0.clone()), ("sched", lists.1.clone())] {
        if let (J::O(_), J::A(v)) = (cur.get(k), &l) {
            if v.len() >= 4000 && k == "io" {
                continue;
            }
            let mut c = cur.clone();
            let sub = c.get(k).clone().set("list", l.clone());
            c.put(k, sub);
            let mut tmp = lists.clone();
            if test(&c, &mut tmp) {
                cur = c;
            }
        }
    }
    'outer: loop {
        if t0.elapsed() > budget {
            break;
        }
        let mut cs = vec![];
        candidates(&cur, "", &mut cs, &|x| x);
        let size = cur.size();
        let mut seen = BTreeSet::new();
        for c in cs {
            if t0.elapsed() > budget {
                break 'outer;
            }
            if c.size() > size || c == cur || !seen.insert(c.to_string()) {
                continue;
            }
            let mut tmp = lists.clone();
            if test(&c, &mut tmp) {
                cur = c;
                continue 'outer;
            }
        }
        break;
    }
    (cur, tried)
}

// ------------------------------------------------------------------ known findings
pub struct Known {
    pub property: String,
    pub class: String,
    pub contains: String,
    pub what: String,
    pub case: J,
}
pub fn known_findings(dir: &str) -> Result<Vec<Known>, String> {
    let path = format!("{dir}/known_findings.json");
    let Ok(t) = std::fs::read_to_string(&path) else { return Ok(vec![]) };
    let j = J::parse(&t).map_err(|e| format!("{path}: {e}"))?;
    Ok(j.a("findings")
        .iter()
        .map(|f| Known {
            property: f.s("property").into(),
            class: f.s("class").into(),
            contains: f.s("contains").into(),
            what: f.s("what").into(),
            case: f.get("case").clone(),
        })
        .collect())
}
fn is_known(ks: &[Known], id: &str, class: &str, msg: &str) -> bool {
    ks.iter().any(|k| k.property == id && k.class == class && (k.contains.is_empty() || msg.contains(&k.contains)))
}

// ------------------------------------------------------------------ batches
pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix2(mix2(seed, hash_str(id)), idx)
}

#[repr(C)]
struct Shared {
    next: std::sync::atomic::AtomicU64,
    stop: std::sync::atomic::AtomicU64,
}

fn merge(a: &mut Cx, b: &Cx) {
    a.runs += b.runs;
    a.nontrivial += b.nontrivial;
    for (k, v) in &b.probes {
        *a.probes.entry(k.clone()).or_insert(0) += v;
    }
    for (k, v) in &b.fired {
        *a.fired.entry(k.clone()).or_insert(0) += v;
    }
    a.agg.calls += b.agg.calls;
    a.agg.eintr += b.agg.eintr;
    a.agg.short_r += b.agg.short_r;
    a.agg.short_w += b.agg.short_w;
    a.agg.switches += b.agg.switches;
    a.agg.clock_ns += b.agg.clock_ns;
    a.agg.opened += b.agg.opened;
    a.agg.bytes_read += b.agg.bytes_read;
    a.agg.bytes_written += b.agg.bytes_written;
    a.agg.peak_fds = a.agg.peak_fds.max(b.agg.peak_fds);
    a.hashes.extend(&b.hashes);
}

fn worker(
    p: &'static dyn Prop,
    tier: Tier,
    seed: u64,
    plan: &Plan,
    sh: &Shared,
    t0: Instant,
    ks: &[Known],
    fd: i32,
    fingerprints: bool,
) -> ! {
    use std::sync::atomic::Ordering::SeqCst;
    p.prepare();
    let mut tot = Cx::default();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut cases = 0u64;
    let mut fails: Vec<J> = vec![];
    let mut known = 0u64;
    let mut broken: Option<String> = None;
    let mut samples: Vec<J> = vec![];
    let mut fps: Vec<J> = vec![];
    loop {
        if sh.stop.load(SeqCst) != 0 || t0.elapsed().as_secs() >= plan.wall {
            break;
        }
        let idx = sh.next.fetch_add(1, SeqCst);
        if idx >= plan.cases {
            break;
        }
        let mut r = Rng::new(case_seed(seed, p.id(), idx));
        let case = p.gen(&mut r, idx, tier);
        let o = run_case(p, &case, false, plan.cpu);
        cases += 1;
        if fingerprints {
            fps.push(J::A(vec![J::I(idx as i64), J::S(format!("{:x}:{:?}", o.cx.fingerprint, matches!(o.verdict, Verdict::Pass)))]));
        }
        merge(&mut tot, &o.cx);
        for h in tot.hashes.drain(..) {
            if hashes.len() < 400_000 {
                hashes.insert(h);
            }
        }
        if idx < 3 {
            samples.push(J::obj().set("index", idx).set("case", case.clone()));
        }
        match &o.verdict {
            Verdict::Pass => {}
            Verdict::Broken(m) => {
                broken = Some(format!("case {idx}: {m}"));
                sh.stop.store(1, SeqCst);
                break;
            }
            Verdict::Fail { class, msg, .. } => {
                if is_known(ks, p.id(), class, msg) {
                    known += 1;
                    continue;
                }
                // a failure has to come back before it is reported
                let again = run_case(p, &case, false, plan.cpu);
                let repro = same_class(&again.verdict, class);
                sh.stop.store(1, SeqCst);
                let b = Duration::from_secs(if tier == Tier::Quick { 40 } else { 120 });
                let (min, tried) = if repro { minimise(p, case.clone(), &again.verdict, b, plan.cpu) } else { (case.clone(), 0) };
                fails.push(
                    J::obj()
                        .set("index", idx)
                        .set("class", class.as_str())
                        .set("msg", msg.as_str())
                        .set("repro", J::B(repro))
                        .set("case", min)
                        .set("original", case)
                        .set("shrink_runs", tried),
                );
                break;
            }
        }
    }
    let mut j = stats_json(&tot);
    j.put("hashes", J::A(hashes.iter().map(|h| J::S(format!("{h:x}"))).collect()));
    j.put("cases", cases);
    j.put("known", known);
    j.put("fails", J::A(fails));
    j.put("samples", J::A(samples));
    j.put("fps", J::A(fps));
    if let Some(b) = broken {
        j.put("broken", b.as_str());
    }
    let s = j.to_string() + "\n";
    let mut b = s.as_bytes();
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            break;
        }
        b = &b[n as usize..];
    }
    simos::exit_now(0)
}

pub struct Batch {
    pub cx: Cx,
    pub distinct: u64,
    pub cases: u64,
    pub known: u64,
    pub fails: Vec<J>,
    pub samples: Vec<J>,
    pub fps: BTreeMap<u64, String>,
    pub broken: Option<String>,
    pub wall: f64,
}

pub fn run_batch(p: &'static dyn Prop, tier: Tier, seed: u64, plan: &Plan, workers: usize, ks: &[Known], fps: bool) -> Batch {
    let t0 = Instant::now();
    unsafe {
        let m = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        let sh: &Shared = &*(m as *const Shared);
        let mut kids = vec![];
        for _ in 0..workers {
            let mut fds = [0i32; 2];
            libc::pipe(fds.as_mut_ptr());
            let pid = libc::fork();
            if pid == 0 {
                libc::close(fds[0]);
                worker(p, tier, seed, plan, sh, t0, ks, fds[1], fps);
            }
            libc::close(fds[1]);
            kids.push((pid, fds[0]));
        }
        let mut b = Batch {
            cx: Cx::default(),
            distinct: 0,
            cases: 0,
            known: 0,
            fails: vec![],
            samples: vec![],
            fps: BTreeMap::new(),
            broken: None,
            wall: 0.0,
        };
        let mut hashes: BTreeSet<u64> = BTreeSet::new();
        for (pid, fd) in kids {
            let mut out = vec![];
            let mut buf = [0u8; 65536];
            loop {
                let n = libc::read(fd, buf.as_mut_ptr() as *mut _, buf.len());
                if n <= 0 {
                    break;
                }
                out.extend_from_slice(&buf[..n as usize]);
            }
            libc::close(fd);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            match J::parse(String::from_utf8_lossy(&out).trim()) {
                Ok(j) => {
                    let mut cx = stats_from(&j);
                    for h in cx.hashes.drain(..) {
                        hashes.insert(h);
                    }
                    merge(&mut b.cx, &cx);
                    b.cases += j.u("cases");
                    b.known += j.u("known");
                    b.fails.extend(j.a("fails").iter().cloned());
                    b.samples.extend(j.a("samples").iter().cloned());
                    for f in j.a("fps") {
                        if let J::A(v) = f {
                            if let (Some(i), Some(J::S(s))) = (v.first(), v.get(1)) {
                                b.fps.insert(i.as_i() as u64, s.clone());
                            }
                        }
                    }
                    if let J::S(m) = j.get("broken") {
                        b.broken = Some(m.clone());
                    }
                }
                Err(e) => b.broken = Some(format!("worker gave no result (status {st}): {e}")),
            }
        }
        libc::munmap(m, 4096);
        b.distinct = hashes.len() as u64;
        b.fails.sort_by_key(|f| f.u("index"));
        b.samples.sort_by_key(|f| f.u("index"));
        b.wall = t0.elapsed().as_secs_f64();
        b
    }
}
