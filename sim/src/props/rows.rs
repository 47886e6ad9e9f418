//! C10: writing pulls every provider in lock-step, once per row.
use crate::engine::{cfg_of, gen_io, guard, no_io, Cx, Plan, Prop, Res, Tier, Viol};
use crate::faults::*;
use crate::item::Item;
use crate::json::J;
use crate::rng::Rng;
use crate::simos::{self, Class, Config, Fault};
use crate::world::*;
use crate::{viol, with_type};
use oxyroot::{Branch, ReaderTree, RootFile, StateCallBack, WriterTree};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Before(usize),
    Branch(usize, String),
    Pull(usize, bool),
}
pub type Log = Rc<RefCell<Vec<Ev>>>;

/// what the providers do besides delivering items
#[derive(Clone, Default)]
struct Quirk {
    panic_col: usize,
    panic_row: Option<u64>,
    /// a provider writes and reads another file at this row
    nested_row: Option<u64>,
}

fn nested_session(i: u64) {
    let p = format!("/simfs/nested{}.root", i % 4);
    let s = Spec { name: "n".into(), cols: vec![Col { name: "c".into(), ty: "String".into(), n: 30, mode: 0, seed: i }] };
    if write_file(&p, &[s.clone()]).ok() {
        let _ = try_read(&p, &[s], 0, "C10", true);
    }
}

fn add_logged(tree: &mut WriterTree, c: &Col, k: usize, log: &Log, q: &Quirk, src: Option<&'static Branch>, hint: u64) {
    with_type!(c.ty.as_str(), T => {
        let (seed, mode, n) = (c.seed, c.mode, c.n);
        let log = log.clone();
        let q = q.clone();
        let mut i = 0u64;
        // either computed or read from an open file while writing
        let mut from: Option<Box<dyn Iterator<Item = T>>> = src.map(|b| Box::new(b.as_iter::<T>().unwrap()) as Box<dyn Iterator<Item = T>>);
        let it = std::iter::from_fn(move || {
            if k == q.panic_col && q.panic_row == Some(i) {
                panic!("provider failed");
            }
            if k == q.panic_col && q.nested_row == Some(i) {
                nested_session(i);
            }
            if i >= n {
                log.borrow_mut().push(Ev::Pull(k, false));
                return None;
            }
            let v = match &mut from {
                None => <T as Item>::gen(seed, mode, i),
                Some(it) => match it.next() {
                    Some(v) => v,
                    None => panic!("provider failed: the source ended"),
                },
            };
            log.borrow_mut().push(Ev::Pull(k, true));
            i += 1;
            Some(v)
        });
        // providers with and without a size hint
        match hint {
            0 => tree.new_branch(&c.name, it),
            1 => tree.new_branch(&c.name, it.fuse().peekable_free()),
            _ => {
                let v: Hinted<_> = Hinted { it, left: n as usize, wrong: hint > 2 };
                tree.new_branch(&c.name, v)
            }
        }
    })
}
trait Plain: Iterator + Sized {
    fn peekable_free(self) -> Hinted<Self> {
        Hinted { it: self, left: 0, wrong: true }
    }
}
impl<I: Iterator> Plain for I {}
/// an iterator with a size hint, right or merely a hint
struct Hinted<I> {
    it: I,
    left: usize,
    wrong: bool,
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.left = self.left.saturating_sub(1);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.wrong {
            (0, None)
        } else {
            (self.left, Some(self.left))
        }
    }
}

/// Is the log a legal one? `complete`: writing finished, every row must be there.
fn check_log(log: &[Ev], s: &Spec, ncb: usize, complete: bool) -> Result<(), String> {
    let rows = s.entries();
    let mut at = 0usize;
    for r in 0..rows {
        // the events of a row, in the order they have to come
        let mut told = vec![false; ncb];
        // callbacks: row starts
        let mut need = ncb;
        while need > 0 {
            match log.get(at) {
                None if !complete => return Ok(()),
                Some(Ev::Before(c)) if !told[*c] => {
                    told[*c] = true;
                    need -= 1;
                    at += 1;
                }
                e => return Err(format!("row {r}: {e:?} where callbacks have to be told that the row starts")),
            }
        }
        for (k, c) in s.cols.iter().enumerate() {
            let live = r < c.n;
            if !live {
                // an exhausted branch may be asked again
                while let Some(e) = log.get(at) {
                    match e {
                        Ev::Branch(_, n) if *n == c.name => at += 1,
                        Ev::Pull(j, false) if *j == k => at += 1,
                        _ => break,
                    }
                }
                continue;
            }
            let mut told = vec![false; ncb];
            let mut need = ncb;
            while need > 0 {
                match log.get(at) {
                    None if !complete => return Ok(()),
                    Some(Ev::Branch(x, n)) if *n == c.name && !told[*x] => {
                        told[*x] = true;
                        need -= 1;
                        at += 1;
                    }
                    e => return Err(format!("row {r} branch {:?}: {e:?} where callbacks have to be told the branch", c.name)),
                }
            }
            match log.get(at) {
                None if !complete => return Ok(()),
                Some(Ev::Pull(j, true)) if *j == k => at += 1,
                e => return Err(format!("row {r} branch {:?}: {e:?} where its item has to be taken", c.name)),
            }
        }
    }
    // at most one more row, in which nothing is delivered
    let mut told = vec![false; ncb];
    for e in &log[at..] {
        match e {
            Ev::Before(c) if !told[*c] => told[*c] = true,
            Ev::Branch(..) | Ev::Pull(_, false) => {}
            e => return Err(format!("after the last row: {e:?}")),
        }
    }
    Ok(())
}

pub struct C10;
impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 22000, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 250_000, wall: 780, cpu: 60 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> J {
        let o = if idx % 8 == 7 { MEDIUM } else { SMALL };
        let mut s = gen_spec(r, &GenOpt { names: false, max_cols: 6, ..o });
        if r.below(4) == 0 {
            // ragged on purpose
            for c in s.cols.iter_mut() {
                c.n = *r.pick(&[0, 1, 2, c.n / 2, c.n, c.n]);
            }
        }
        let rows = s.entries();
        let mode = *r.pick(&["plain", "plain", "pipe", "fault", "pipefault", "panic", "nested", "cbpanic"]);
        J::obj()
            .set("trees", specs_j(&[s]))
            .set("callbacks", r.below(4))
            .set("hint", r.below(4))
            .set("mode", mode)
            .set("row", r.below(rows + 1))
            .set("col", r.below(6))
            .set("apis", r.below(3))
            .set("pseed", r.seed())
            .set("points", 10u64)
            .set("io", if r.below(2) == 0 { gen_io(r) } else { no_io() })
            .set("rand_seed", r.seed())
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        let specs = specs_of(case);
        let Some(spec) = specs.first() else { return Ok(()) };
        let mode = case.s("mode").to_string();
        cx.boot(&cfg);
        let pipe = mode.starts_with("pipe");
        let src = "/simfs/src.root";
        let image = if pipe {
            must_write(src, &specs, "C10")?;
            simos::get_file(src).unwrap_or_default()
        } else {
            vec![]
        };
        note_specs(cx, &specs);
        // a run without faults first: it gives the census, and is a check itself
        let base = if mode == "pipefault" || mode == "fault" { "plain" } else { mode.as_str() };
        self.one(case, spec, base, pipe, src, cx, false)?;
        if mode != "fault" && mode != "pipefault" {
            return Ok(());
        }
        let classes = if pipe { vec![Class::Read, Class::Seek, Class::Write] } else { vec![Class::Write, Class::Seek] };
        let cen = census(&[2], &classes);
        let mut r = Rng::new(case.u("pseed"));
        let plans: Vec<Vec<Fault>> = match faults_of(case) {
            Some(f) => vec![f],
            None => points(&mut r, &cen, case.u("points") as usize)
                .into_iter()
                .map(|(phase, class, nth)| vec![Fault { phase, class, nth, kind: error_kind(&mut r, class), persist: r.below(3) == 0 }])
                .collect(),
        };
        for faults in plans {
            cx.boot(&Config { faults: faults.clone(), ..cfg.clone() });
            if pipe {
                simos::put_file(src, &image);
            }
            self.one(case, spec, "plain", pipe, src, cx, true).map_err(|mut v: Viol| {
                v.narrowed = Some(with_faults(case, &faults));
                v.msg = format!("{} (fault {})", v.msg, with_faults(case, &faults).get("faults"));
                v
            })?;
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one case writes a tree whose providers and callbacks log every call (computed items, items read from another open file meanwhile, a provider that runs a session of its own, a panicking provider or callback, failing disk) and checks the log row by row and the file read back; non-trivial if a fault, interruption or short transfer occurred"
    }
}
impl C10 {
    #[allow(clippy::too_many_arguments)]
    fn one(&self, case: &J, spec: &Spec, mode: &str, pipe: bool, src: &str, cx: &mut Cx, faulty: bool) -> Res<()> {
        let path = "/simfs/f.root";
        let ncb = case.u("callbacks") as usize;
        let (row, col) = (case.u("row"), if spec.cols.is_empty() { 0 } else { case.u("col") as usize % spec.cols.len() });
        let log: Log = Default::default();
        simos::set_phase(1);
        let tree: Option<&'static ReaderTree> = if pipe {
            match guard(|| RootFile::open(src).and_then(|mut f| f.get_tree(&spec.name))) {
                Ok(Ok(t)) => Some(Box::leak(Box::new(t))),
                e => viol!("C10/read-failed", "source: {:?}", e.map(|r| r.err())),
            }
        } else {
            None
        };
        let mut f = match guard(|| RootFile::create(path)) {
            Ok(Ok(f)) => f,
            e => viol!("C10/write-failed", "create: {:?}", e.map(|r| r.err())),
        };
        let mut q = Quirk { panic_col: col, ..Default::default() };
        match mode {
            "panic" => q.panic_row = Some(row),
            "nested" => q.nested_row = Some(row),
            _ => {}
        }
        let mut t = WriterTree::new(&spec.name);
        for (k, c) in spec.cols.iter().enumerate() {
            let b: Option<&'static Branch> = tree.map(|t| t.branches_r()[k]);
            add_logged(&mut t, c, k, &log, &q, b, (case.u("hint") + k as u64) % 4);
            // a callback may be registered at any time
            if k == 0 {
                for x in 0..ncb / 2 {
                    self.callback(&mut t, x, &log, u64::MAX);
                }
            }
        }
        let first = if spec.cols.is_empty() { 0 } else { ncb / 2 };
        for x in first..ncb {
            let bomb = if mode == "cbpanic" && x + 1 == ncb { row } else { u64::MAX };
            self.callback(&mut t, x, &log, bomb);
        }
        if !log.borrow().is_empty() {
            viol!("C10/early", "before write: {:?}", log.borrow()[0]);
        }
        simos::set_phase(2);
        let w = guard(|| t.write(&mut f));
        let len = log.borrow().len();
        simos::set_phase(3);
        // what comes later takes nothing from the providers
        let c = match &w {
            Ok(Ok(())) => Some(guard(|| f.close())),
            _ => None,
        };
        if let Err(m) = guard(move || drop(t)) {
            viol!("C10/panic", "dropping the tree panicked: {m}");
        }
        if log.borrow().len() != len {
            viol!("C10/late", "after write returned: {:?}", log.borrow()[len]);
        }
        let complete = matches!(w, Ok(Ok(())));
        if let Err(m) = check_log(&log.borrow(), spec, ncb, complete) {
            viol!("C10/order", "{m}");
        }
        match &w {
            Ok(Ok(())) => {}
            Ok(Err(e)) if faulty => {
                let _ = e;
                cx.probe("write failed with an error");
                return Ok(());
            }
            Err(m) if m.contains("provider failed") || m.contains("callback failed") => {
                cx.probe("user code panicked");
                return Ok(());
            }
            Err(m) if faulty && pipe => {
                // the source iterator reports read errors by a panic
                let _ = m;
                cx.probe("source failed while writing");
                return Ok(());
            }
            e => viol!("C10/write-failed", "{e:?}"),
        }
        match c {
            Some(Ok(Ok(()))) => {}
            e if faulty => {
                let _ = e;
                return Ok(());
            }
            e => viol!("C10/write-failed", "close: {e:?}"),
        }
        drop(f);
        simos::set_phase(0);
        must_read(path, std::slice::from_ref(spec), case.u("apis"), "C10")
    }
    fn callback(&self, t: &mut WriterTree, x: usize, log: &Log, bomb: u64) {
        let log = log.clone();
        let mut row = 0;
        t.add_callback(Box::new(move |s| match s {
            StateCallBack::Before => {
                log.borrow_mut().push(Ev::Before(x));
                if row == bomb {
                    panic!("callback failed");
                }
                row += 1;
            }
            StateCallBack::Branch(n) => log.borrow_mut().push(Ev::Branch(x, n)),
            StateCallBack::After => {}
        }));
    }
}
