//! C15: reading and writing stream within bounded resources.
//!
//! Bounds are differences between two runs of the same session, one with four
//! times the items: what must not grow with the number of items is compared.
use crate::engine::{cfg_of, gen_io, guard, no_io, Cx, Plan, Prop, Res, Tier, Viol};
use crate::faults::*;
use crate::item::Item;
use crate::json::J;
use crate::rng::Rng;
use crate::simos::{self, Class, Config, Fault};
use crate::world::*;
use crate::{alloc, viol, with_type};
use oxyroot::{RootFile, WriterTree};
use std::cell::RefCell;
use std::rc::Rc;

pub struct C15;

#[derive(Clone, Debug, Default)]
struct M {
    /// bytes the items need in the file
    data: u64,
    /// heap above the level at the start of the measured part
    heap: u64,
    /// most bytes produced and not yet on the disk
    lag: u64,
    fds: u64,
    calls: u64,
    read: u64,
    /// bytes read for the first items
    first: u64,
}

fn col_bytes(c: &Col, n: u64) -> u64 {
    with_type!(c.ty.as_str(), T => (0..n).map(|i| <T as Item>::gen(c.seed, c.mode, i).cost() as u64).sum())
}

#[derive(Default)]
struct Meter {
    produced: u64,
    lag: u64,
    fds: u64,
}
/// a provider that looks at the disk while it delivers
fn add_metered(t: &mut WriterTree, c: &Col, path: &str, m: &Rc<RefCell<Meter>>) {
    with_type!(c.ty.as_str(), T => {
        let (seed, mode, n) = (c.seed, c.mode, c.n);
        let (path, m) = (path.to_string(), m.clone());
        t.new_branch(&c.name, (0..n).map(move |i| {
            let v = <T as Item>::gen(seed, mode, i);
            let mut m = m.borrow_mut();
            if i % 64 == 0 {
                let disk = simos::file_len(&path).unwrap_or(0);
                m.lag = m.lag.max(m.produced.saturating_sub(disk));
                m.fds = m.fds.max(simos::open_fds());
            }
            m.produced += v.cost() as u64;
            v
        }));
    })
}

impl Prop for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 2400, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 150_000, wall: 780, cpu: 60 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, t: Tier) -> J {
        let kind = match idx % 4 {
            0 => "grow",
            1 => "storm",
            2 => "leak-read",
            _ => "leak-write",
        };
        let mut trees: Vec<Spec> = vec![];
        if kind == "grow" {
            let mut cols = vec![];
            for i in 0..r.range(1, 3) {
                let mut c = gen_col(r, &SMALL, i);
                while c.mode / 8 == 8 {
                    c = gen_col(r, &SMALL, i);
                }
                let size = if crate::item::is_var(&c.ty) { crate::item::mean_len(c.mode) as u64 + 6 } else { crate::item::type_size(&c.ty) as u64 };
                // large items make fewer rows, small ones cost time
                let want = if size >= 8 { r.range(300_000, 500_000) } else { 160_000 };
                c.n = (want / size).max(4);
                cols.push(c);
            }
            trees.push(Spec { name: "t".into(), cols });
        } else {
            let o = if idx % 16 > 11 { MEDIUM } else { SMALL };
            for i in 0..r.range(1, 2) {
                let mut s = gen_spec(r, &GenOpt { names: false, ..o });
                s.name = format!("t{i}");
                trees.push(s);
            }
        }
        let io = match kind {
            "grow" => no_io(),
            "storm" => J::obj().set("seed", r.seed()).set("short", r.below(1000)).set("eintr", r.range(200, 960)),
            _ => {
                if r.below(2) == 0 {
                    gen_io(r)
                } else {
                    no_io()
                }
            }
        };
        J::obj()
            .set("kind", kind)
            .set("trees", specs_j(&trees))
            .set("api", r.below(3))
            .set("points", if t == Tier::Quick { 30u64 } else { 100 })
            .set("pseed", r.seed())
            .set("io", io)
            .set("rand_seed", r.seed())
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        match case.s("kind") {
            "grow" => self.grow(case, cx),
            "storm" => self.storm(case, cx),
            k => self.leak(case, cx, k == "leak-write"),
        }
    }
    fn rule(&self) -> &'static str {
        "one case is either a growth measurement (the same session with n and 4n items: heap, undelivered bytes, descriptors, calls, bytes read), or a session under storms of interrupted and one-byte transfers with a budget of calls, or reading or writing sessions with injected failures after which no descriptor may stay open; non-trivial if a fault, interruption or short transfer occurred"
    }
}

impl C15 {
    fn grow(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        let specs = specs_of(case);
        let Some(small) = specs.first() else { return Ok(()) };
        let mut big = small.clone();
        for c in big.cols.iter_mut() {
            c.n *= 4;
        }
        let (w1, r1) = self.measure(case, cx, &cfg, small)?;
        let (w4, r4) = self.measure(case, cx, &cfg, &big)?;
        let inc = w4.data.saturating_sub(w1.data);
        // a quarter of the additional data, and the odd buffer
        let slack = inc / 4 + 100_000;
        let grew = |what: &str, a: u64, b: u64, allow: u64| -> Res<()> {
            if b > a + allow {
                viol!("C15/growth", "{what}: {a} with {} bytes of items, {b} with {} bytes of items", w1.data, w4.data);
            }
            Ok(())
        };
        if inc > 300_000 {
            cx.probe("growth measured");
            grew("heap while writing", w1.heap, w4.heap, slack)?;
            grew("bytes handed in and not on the disk", w1.lag, w4.lag, slack)?;
            grew("heap while reading", r1.heap, r4.heap, slack)?;
            grew("bytes read for the first items", r1.first, r4.first, slack)?;
        }
        grew("descriptors while writing", w1.fds, w4.fds, 0)?;
        grew("descriptors while reading", r1.fds, r4.fds, 0)?;
        // in proportion to the data (or to the rows, where these grew more)
        let f = (w4.data as f64 / w1.data.max(1) as f64).clamp(4.0, 100.0) * 1.3;
        grew("calls while writing", (w1.calls as f64 * f) as u64, w4.calls, 300)?;
        grew("calls while reading", (r1.calls as f64 * f) as u64, r4.calls, 300)?;
        grew("bytes read", (r1.read as f64 * f) as u64, r4.read, 300_000)?;
        Ok(())
    }
    fn measure(&self, case: &J, cx: &mut Cx, cfg: &Config, s: &Spec) -> Res<(M, M)> {
        let id = "C15";
        let path = "/simfs/f.root";
        cx.boot(cfg);
        let mut w = M { data: s.cols.iter().map(|c| col_bytes(c, c.n)).sum(), ..Default::default() };
        let meter: Rc<RefCell<Meter>> = Default::default();
        let base = alloc::current();
        alloc::reset_peak();
        {
            let mut f = match guard(|| RootFile::create(path)) {
                Ok(Ok(f)) => f,
                e => viol!("C15/write-failed", "create: {:?}", e.map(|r| r.err())),
            };
            let mut t = WriterTree::new(&s.name);
            for c in &s.cols {
                add_metered(&mut t, c, path, &meter);
            }
            match guard(|| t.write(&mut f)) {
                Ok(Ok(())) => {}
                e => viol!("C15/write-failed", "write: {e:?}"),
            }
            w.heap = (alloc::peak() - base).max(0) as u64;
            drop(t);
            match guard(|| f.close()) {
                Ok(Ok(())) => {}
                e => viol!("C15/write-failed", "close: {e:?}"),
            }
        }
        if simos::open_fds() != 0 {
            viol!("C15/leak", "{} descriptors stay open after writing", simos::open_fds());
        }
        let st = simos::stats();
        w.calls = st.calls;
        w.fds = meter.borrow().fds;
        w.lag = meter.borrow().lag;
        let img = simos::get_file(path).unwrap_or_default();
        cx.boot(cfg);
        simos::put_file(path, &img);
        drop(img);
        let mut r = M::default();
        let api = api_of(case.u("api"));
        let mut f = must_open(path, id)?;
        let t = must_fetch(&mut f, s, id)?;
        let base = alloc::current();
        alloc::reset_peak();
        let before = simos::stats().bytes_read;
        // the first items of every branch
        {
            let mut cur = vec![];
            for (i, c) in s.cols.iter().enumerate() {
                match Cursor::new(&t, i, c, api) {
                    Ok(c) => cur.push(c),
                    Err(e) => viol!("C15/read-failed", "no iterator: {e}"),
                }
            }
            for c in cur.iter_mut() {
                if let Adv::Loud(m) = c.advance(5.min(c.col.n), id)? {
                    viol!("C15/read-failed", "{m}");
                }
            }
            r.first = simos::stats().bytes_read - before;
        }
        let b2 = simos::stats().bytes_read;
        for (i, c) in s.cols.iter().enumerate() {
            let mut cur = match Cursor::new(&t, i, c, api) {
                Ok(c) => c,
                Err(e) => viol!("C15/read-failed", "no iterator: {e}"),
            };
            loop {
                let a = cur.advance(64, id)?;
                r.fds = r.fds.max(simos::open_fds());
                match a {
                    Adv::More => {}
                    Adv::End => break,
                    Adv::Loud(m) => viol!("C15/read-failed", "{m}"),
                }
            }
        }
        r.heap = (alloc::peak() - base).max(0) as u64;
        let st = simos::stats();
        r.read = st.bytes_read - b2;
        r.calls = st.calls;
        drop(t);
        drop(f);
        if simos::open_fds() != 0 {
            viol!("C15/leak", "{} descriptors stay open after reading", simos::open_fds());
        }
        if std::env::var("SIM_MEASURE").is_ok() {
            cx.probe(&format!("w {w:?} r {r:?}"));
        }
        Ok((w, r))
    }

    fn storm(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        let specs = specs_of(case);
        let path = "/simfs/f.root";
        cx.boot(&Config { benign: Default::default(), ..cfg.clone() });
        must_write(path, &specs, "C15")?;
        must_read(path, &specs, case.u("api"), "C15")?;
        // every byte may take its own call, most calls may be interrupted
        let st = simos::stats();
        let budget = 20_000 + 30 * (st.calls + st.bytes_read + st.bytes_written);
        cx.boot(&Config { budget, ..cfg });
        must_write(path, &specs, "C15")?;
        must_read(path, &specs, case.u("api"), "C15")?;
        if simos::open_fds() != 0 {
            viol!("C15/leak", "{} descriptors stay open", simos::open_fds());
        }
        cx.probe("storms survived");
        Ok(())
    }

    fn leak(&self, case: &J, cx: &mut Cx, writing: bool) -> Res<()> {
        let cfg = cfg_of(case);
        let specs = specs_of(case);
        let path = "/simfs/f.root";
        cx.boot(&cfg);
        must_write(path, &specs, "C15")?;
        let img = simos::get_file(path).unwrap_or_default();
        let st = simos::stats();
        let budget = 20_000 + 30 * (st.calls + 2 * st.bytes_written);
        let session = |faulty: bool| -> Res<()> {
            simos::set_phase(1);
            if writing {
                let _ = write_file(path, &specs);
            } else {
                let r = try_read(path, &specs, case.u("api"), "C15", true);
                if !faulty {
                    r?;
                }
            }
            simos::set_phase(0);
            if simos::open_fds() != 0 {
                viol!("C15/leak", "{} descriptors stay open after everything was dropped", simos::open_fds());
            }
            Ok(())
        };
        cx.boot(&cfg);
        if !writing {
            simos::put_file(path, &img);
        }
        session(false)?;
        let classes = [Class::Open, Class::Read, Class::Write, Class::Seek, Class::Stat, Class::Dup, Class::Sync, Class::Any];
        let cen = census(&[1], &classes);
        let mut r = Rng::new(case.u("pseed"));
        let plans: Vec<Vec<Fault>> = match faults_of(case) {
            Some(f) => vec![f],
            None => points(&mut r, &cen, case.u("points") as usize)
                .into_iter()
                .map(|(phase, class, nth)| {
                    let k = error_kind(&mut r, if class == Class::Any { Class::Seek } else { class });
                    let f = Fault { phase, class, nth, kind: k, persist: r.below(2) == 0 };
                    vec![f]
                })
                .collect(),
        };
        for faults in plans {
            cx.boot(&Config { faults: faults.clone(), budget, ..cfg.clone() });
            if !writing {
                simos::put_file(path, &img);
            }
            session(true).map_err(|mut v: Viol| {
                v.narrowed = Some(with_faults(case, &faults));
                v.msg = format!("{} (fault {})", v.msg, with_faults(case, &faults).get("faults"));
                v
            })?;
        }
        Ok(())
    }
}
