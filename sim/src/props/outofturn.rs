//! C24: using the objects of the library out of turn (a tree written again, a
//! file written to after its close, a file opened for reading written to, a
//! session continued after a failure) is refused or works, and harms nothing.
use crate::engine::{cfg_of, gen_io, guard, Cx, Plan, Prop, Res, Tier};
use crate::faults::*;
use crate::json::J;
use crate::rng::Rng;
use crate::simos::{self, Class, Fault};
use crate::world::*;
use crate::{viol, with_type};
use oxyroot::{ReaderTree, RootFile, WriterTree};
use std::rc::Rc;

pub struct C24;

const PATHS: [&str; 3] = ["/simfs/a.root", "/simfs/b.root", "/simfs/c.root"];

struct T {
    spec: Spec,
    tree: WriterTree,
    /// given to write before, whatever came of it
    used: bool,
    /// written completely
    done: bool,
    /// a provider of it panics
    bomb: bool,
}
struct W {
    k: usize,
    f: RootFile,
    /// reported as written before the close
    specs: Vec<Spec>,
    /// something failed in this session
    hurt: bool,
    /// a close succeeded
    closed: bool,
}
struct R {
    f: RootFile,
    specs: Vec<Spec>,
}

/// an iterator over a branch that keeps its tree
struct Owned<X> {
    it: Box<dyn Iterator<Item = X>>,
    _t: Rc<ReaderTree>,
}
impl<X> Iterator for Owned<X> {
    type Item = X;
    fn next(&mut self) -> Option<X> {
        simos::tick();
        self.it.next()
    }
}
/// a branch filled from a branch of another file while that is read
fn copy_col(tree: &mut WriterTree, t: &Rc<ReaderTree>, i: usize, c: &Col) -> bool {
    let Some(b) = t.branches().nth(i) else { return false };
    // the branch lives as long as the Rc kept beside the iterator
    let b: &'static oxyroot::Branch = unsafe { std::mem::transmute(b) };
    with_type!(c.ty.as_str(), X => {
        match guard(|| b.as_iter::<X>()) {
            Ok(Ok(it)) => {
                tree.new_branch(&c.name, Owned::<X> { it: Box::new(it), _t: t.clone() });
                true
            }
            _ => false,
        }
    })
}

fn says<X, E: std::fmt::Debug>(r: Result<Result<X, E>, String>) -> Result<bool, String> {
    match r {
        Ok(Ok(_)) => Ok(true),
        Ok(Err(_)) => Ok(false),
        Err(m) => Err(m),
    }
}

impl Prop for C24 {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 16000, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 250_000, wall: 780, cpu: 60 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> J {
        let o = if idx % 16 == 15 { LARGE } else if idx % 8 > 5 { MEDIUM } else { SMALL };
        let k = r.range(1, 5);
        let mut trees: Vec<Spec> = (0..k).map(|_| gen_spec(r, &o)).collect();
        for (i, s) in trees.iter_mut().enumerate() {
            if r.below(3) != 0 {
                s.name = format!("t{}", i as u64 / r.range(1, 2));
            }
        }
        let faulty = idx % 2 == 1;
        let n = r.range(4, 34);
        let mut ops = vec![];
        for i in 0..n {
            let op = match i {
                0 => 0,
                1 => 1,
                _ => *r.pick(&[0u64, 1, 1, 1, 2, 2, 3, 3, 3, 3, 3, 3, 4, 4, 4, 5, 5, 6, 6, 7, 8, 9, 10, 11, 12, 13, 13, 14]),
            };
            let mut j = J::obj().set("op", op).set("a", r.below(64)).set("b", r.below(1 << 16));
            if faulty && r.below(4) == 0 {
                let class = *r.pick(&[Class::Write, Class::Write, Class::Write, Class::Seek, Class::Seek, Class::Read, Class::Open, Class::Any]);
                let nth = match r.below(4) {
                    0 => 1,
                    1 => r.range(1, 4),
                    2 => r.range(1, 12),
                    _ => r.range(1, 60),
                };
                let kind = error_kind(r, if class == Class::Any { Class::Seek } else { class });
                j.put("fault", fault_j(&Fault { phase: 0, class, nth, kind, persist: r.below(4) == 0 }));
            }
            ops.push(j);
        }
        J::obj().set("trees", specs_j(&trees)).set("ops", J::A(ops)).set("io", gen_io(r)).set("rand_seed", r.seed())
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        cx.boot(&cfg);
        let pool = specs_of(case);
        let mut ts: Vec<T> = vec![];
        let mut ws: Vec<W> = vec![];
        let mut rs: Vec<R> = vec![];
        let mut taken = [false; 3];
        // files whose close succeeded and what they hold
        let mut done: Vec<(usize, Vec<Spec>)> = vec![];
        for (at, op) in case.a("ops").iter().enumerate() {
            let (a, b) = (op.u("a") as usize, op.u("b"));
            let f = op.get("fault");
            simos::inject(if f.is_null() { vec![] } else { vec![fault_of(f)] });
            let full = simos::with(|s| s.disk_free.is_some());
            match op.u("op") {
                0 => {
                    let k = a % 3;
                    if taken[k] {
                        continue;
                    }
                    match says(guard(|| RootFile::create(PATHS[k])).map(|r| r.map(|f| ws.push(W { k, f, specs: vec![], hurt: false, closed: false })))) {
                        Ok(true) => taken[k] = true,
                        Ok(false) if simos::faults_fired() > 0 || full => taken[k] = true,
                        e => viol!("C24/refused", "create: {e:?}"),
                    }
                }
                1 if !pool.is_empty() => {
                    let spec = pool[a % pool.len()].clone();
                    let mut tree = new_tree(&spec);
                    let bomb = b % 16 == 0;
                    if bomb {
                        let n = spec.entries() / 2;
                        tree.new_branch("bomb", (0u64..).map(move |k| if k == n { panic!("provider failed") } else { k }));
                    }
                    ts.push(T { spec, tree, used: false, done: false, bomb });
                }
                2 if !ts.is_empty() => {
                    // one more branch, whatever became of the tree
                    let n = ts.len();
                    let t = &mut ts[a % n];
                    let mut c = gen_col(&mut Rng::new(b), &SMALL, 100 + at as u64);
                    c.n = c.n.min(50);
                    if t.used {
                        cx.probe("a branch added to a tree that was written");
                    }
                    if let Err(m) = guard(|| add_col(&mut t.tree, &c)) {
                        viol!("C24/panic", "new_branch on a tree {} panicked: {m}", if t.used { "that was written" } else { "not yet written" });
                    }
                    t.spec.cols.push(c);
                }
                3 if !ts.is_empty() && !ws.is_empty() => {
                    let nt = ts.len();
                    let t = &mut ts[if b % 4 == 0 { a % nt } else { nt - 1 - a % nt.min(2) }];
                    let nw = ws.len();
                    let w = &mut ws[(b / 4) as usize % nw];
                    if t.used {
                        cx.probe(if t.done { "a tree written again" } else { "a tree written again after a failure" });
                    }
                    if w.closed {
                        cx.probe("a tree written to a closed file");
                    }
                    if w.hurt && !t.used && !w.closed {
                        cx.probe("a tree written to a file that had a failure");
                    }
                    let r = says(guard(|| t.tree.write(&mut w.f)));
                    let hit = simos::faults_fired() > 0 || full;
                    match &r {
                        Ok(true) if t.done => viol!("C24/twice", "tree {:?} was written a second time: its items are gone", t.spec.name),
                        Ok(true) if w.closed => viol!("C24/after-close", "tree {:?} was written to a file that is closed", t.spec.name),
                        // to be found complete in the end
                        Ok(true) => w.specs.push(t.spec.clone()),
                        Ok(false) if !t.used && !w.closed && !w.hurt && !hit => {
                            viol!("C24/refused", "writing tree {:?} failed: {r:?}", t.spec.name)
                        }
                        Ok(false) => {}
                        Err(m) if m.contains("provider failed") || t.bomb => {}
                        // reading the source of a copied branch failed
                        Err(_) if hit && simos::stats().fired.keys().any(|k| k.starts_with("read") || k.starts_with("seek")) => {}
                        Err(m) => viol!("C24/panic", "write of a tree {} into a file {} panicked: {m}", state(t.used), if w.closed { "that is closed" } else { "open for writing" }),
                    }
                    t.used = true;
                    if r == Ok(true) {
                        t.done = true;
                    } else if !w.closed {
                        w.hurt = true;
                    }
                }
                4 if !ws.is_empty() => {
                    let n = ws.len();
                    let w = &mut ws[a % n];
                    if w.closed {
                        cx.probe("a file closed again");
                    } else if w.hurt {
                        cx.probe("a file closed after a failure");
                    }
                    let hurt = w.hurt || full;
                    match says(guard(|| w.f.close())) {
                        Ok(true) => {
                            if !w.closed {
                                w.closed = true;
                                done.push((w.k, w.specs.clone()));
                            }
                        }
                        Ok(false) if w.closed => {}
                        Ok(false) if hurt || simos::faults_fired() > 0 => w.hurt = true,
                        Ok(false) => viol!("C24/refused", "close failed"),
                        Err(m) => viol!("C24/panic", "close of a file {} panicked: {m}", if w.closed { "closed before" } else if w.hurt { "with an earlier failure" } else { "open for writing" }),
                    }
                }
                5 => {
                    simos::inject(vec![]);
                    let k = a % 3;
                    self.look(k, &done, &ws, b)?;
                    cx.probe("a file looked at between");
                }
                6 if !done.is_empty() => {
                    let (k, s) = &done[a % done.len()];
                    match guard(|| RootFile::open(PATHS[*k])) {
                        Ok(Ok(f)) => rs.push(R { f, specs: s.clone() }),
                        Ok(Err(_)) if simos::faults_fired() > 0 => {}
                        e => viol!("C24/open-failed", "open of a closed file: {:?}", e.map(|r| r.err())),
                    }
                }
                7 if !rs.is_empty() && !ts.is_empty() => {
                    let n = rs.len();
                    let r = &mut rs[a % n];
                    let n = ts.len();
                    let t = &mut ts[b as usize % n];
                    cx.probe("a tree written to a file opened for reading");
                    let o = says(guard(|| t.tree.write(&mut r.f)));
                    match o {
                        Ok(false) => {}
                        Ok(true) => viol!("C24/read-only", "tree {:?} was written to a file opened for reading", t.spec.name),
                        Err(_) if t.bomb => {}
                        Err(_) if simos::faults_fired() > 0 => {}
                        Err(m) => viol!("C24/panic", "write of a tree {} into a file opened for reading panicked: {m}", state(t.used)),
                    }
                    t.used = true;
                }
                8 if !rs.is_empty() => {
                    let n = rs.len();
                    let r = &mut rs[a % n];
                    cx.probe("a file opened for reading closed");
                    if let Err(m) = guard(|| r.f.close()) {
                        viol!("C24/panic", "close of a file opened for reading panicked: {m}");
                    }
                    self.fetch(r, b, true, cx)?;
                }
                9 if !ws.is_empty() => {
                    let n = ws.len();
                    let w = &mut ws[a % n];
                    cx.probe("a tree fetched from a file open for writing");
                    let name = w.specs.first().map(|s| s.name.clone()).unwrap_or("t".into());
                    match guard(|| (w.f.keys_name().count(), w.f.get_tree(&name).map(Rc::new))) {
                        Ok((_, Err(_))) => {}
                        Ok((_, Ok(t))) => {
                            let Some(s) = newest(&w.specs).into_iter().find(|s| s.name == name).cloned() else {
                                viol!("C24/invented", "a tree that was never written was fetched from a file open for writing")
                            };
                            check_shape(&t, &s, "C24")?;
                        }
                        Err(m) => viol!("C24/panic", "get_tree on a file {} panicked: {m}", if w.closed { "that is closed" } else { "open for writing" }),
                    }
                }
                10 if !ws.is_empty() && a % 2 == 0 => {
                    let n = ws.len();
                    let w = ws.swap_remove(a / 2 % n);
                    cx.probe(if w.closed { "a closed file dropped" } else { "a file dropped without close" });
                    if let Err(m) = guard(move || drop(w)) {
                        viol!("C24/panic", "drop panicked: {m}");
                    }
                }
                11 => {
                    simos::free_disk();
                }
                12 if !rs.is_empty() => {
                    let n = rs.len();
                    self.fetch(&mut rs[a % n], b, simos::faults_fired() > 0 || !f.is_null(), cx)?;
                }
                13 if !done.is_empty() => {
                    // a tree copied from another file while it is written
                    let (k, s) = &done[a % done.len()];
                    simos::inject(vec![]);
                    let mut f = must_open(PATHS[*k], "C24")?;
                    let new = newest(s);
                    if new.is_empty() {
                        continue;
                    }
                    let src = new[b as usize % new.len()];
                    let t = must_fetch(&mut f, src, "C24")?;
                    let mut spec = Spec { name: format!("{}c", src.name), cols: vec![] };
                    let mut tree = WriterTree::new(&spec.name);
                    for (i, c) in src.cols.iter().enumerate() {
                        if copy_col(&mut tree, &t, i, c) {
                            spec.cols.push(c.clone());
                        } else {
                            viol!("C24/read-failed", "branch {:?} gives no iterator", c.name);
                        }
                    }
                    cx.probe("a tree copied from a file while it is read");
                    ts.push(T { spec, tree, used: false, done: false, bomb: false });
                }
                14 if !ts.is_empty() && a % 2 == 0 => {
                    let n = ts.len();
                    ts.swap_remove(a / 2 % n);
                }
                _ => {}
            }
        }
        simos::inject(vec![]);
        simos::free_disk();
        // everything still open is closed, now without trouble
        for w in ws.iter_mut().filter(|w| !w.closed) {
            let mut ok = false;
            for _ in 0..2 {
                match says(guard(|| w.f.close())) {
                    Ok(true) => {
                        ok = true;
                        break;
                    }
                    Ok(false) if w.hurt => {}
                    Ok(false) => viol!("C24/refused", "close failed"),
                    Err(m) => viol!("C24/panic", "close of a file {} panicked: {m}", if w.hurt { "with an earlier failure" } else { "open for writing" }),
                }
            }
            if ok {
                w.closed = true;
                done.push((w.k, w.specs.clone()));
                if w.hurt {
                    cx.probe("a file closed in the end after a failure");
                }
            }
        }
        for k in 0..3 {
            self.look(k, &done, &ws, 0)?;
        }
        for r in rs.iter_mut() {
            self.fetch(r, 1, true, cx)?;
        }
        drop(ts);
        drop(rs);
        drop(ws);
        let n = simos::open_fds();
        if n != 0 {
            viol!("C24/descriptors", "{n} descriptors are open after everything was dropped");
        }
        for (k, s) in &done {
            must_read(PATHS[*k], s, 1, "C24")?;
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one case is a random sequence of create, new_branch, write, close, fetch, open and drop on a few files and trees without regard to their state, half of the cases with failing calls and full disks in between that are later repaired; after every refusal what was reported as written must be there; non-trivial if calls were split, interrupted or failed"
    }
}

fn state(used: bool) -> &'static str {
    if used {
        "written before"
    } else {
        "not yet written"
    }
}

impl C24 {
    /// the file as another reader sees it now
    fn look(&self, k: usize, done: &[(usize, Vec<Spec>)], ws: &[W], apis: u64) -> Res<()> {
        if let Some((_, s)) = done.iter().find(|d| d.0 == k) {
            return must_read(PATHS[k], s, apis, "C24");
        }
        let Some(w) = ws.iter().find(|w| w.k == k) else { return Ok(()) };
        for s in try_read(PATHS[k], &w.specs, apis, "C24", false)? {
            match s {
                Seen::OpenPanic(m) | Seen::TreePanic(_, m) => viol!("C24/panic", "reading a file that is not closed panicked: {m}"),
                _ => {}
            }
        }
        Ok(())
    }
    fn fetch(&self, r: &mut R, b: u64, lenient: bool, _cx: &mut Cx) -> Res<()> {
        let new = newest(&r.specs);
        if new.is_empty() {
            return Ok(());
        }
        let s = new[b as usize % new.len()].clone();
        match guard(|| r.f.get_tree(&s.name)) {
            Ok(Ok(t)) => {
                check_shape(&t, &s, "C24")?;
                for (i, (br, c)) in t.branches().zip(&s.cols).enumerate() {
                    match read_col(br, c, api_of(b + i as u64), "C24")? {
                        RStat::Complete => {}
                        RStat::Loud(_, _) if lenient => {}
                        RStat::Loud(at, m) => viol!("C24/read-failed", "branch {:?} item {at}: {m}", c.name),
                    }
                }
                Ok(())
            }
            Ok(Err(_)) if lenient => Ok(()),
            e => viol!("C24/tree-failed", "get_tree({:?}): {:?}", s.name, e.map(|r| r.err())),
        }
    }
}
