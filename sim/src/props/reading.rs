//! C05 (read faults are loud and never change data), C06 (open and get_tree
//! return errors), C07 (incomplete and foreign files are refused).
use crate::engine::{cfg_of, gen_io, guard, no_io, Cx, Plan, Prop, Res, Tier, Viol};
use crate::faults::*;
use crate::json::J;
use crate::rng::Rng;
use crate::simos::{self, Class, Config, Fault, Kind};
use crate::viol;
use crate::world::*;
use crate::props::fixtures::tree_names;
use oxyroot::RootFile;

pub const RCLASSES: &[Class] =
    &[Class::Open, Class::Read, Class::Seek, Class::Stat, Class::Dup, Class::Dir, Class::Sync];

pub fn few_trees(r: &mut Rng, o: &GenOpt) -> Vec<Spec> {
    let k = if r.below(4) == 0 { 2 } else { 1 };
    let mut v: Vec<Spec> = (0..k).map(|_| gen_spec(r, o)).collect();
    for (i, s) in v.iter_mut().enumerate() {
        s.name = format!("t{i}");
    }
    v
}

/// a failure of a reading call; the file is sometimes cut to one of the lengths
pub fn read_fault(r: &mut Rng, class: Class, _lens: &[u64]) -> Kind {
    if class == Class::Read && r.below(4) == 0 {
        return Kind::Trunc(None);
    }
    error_kind(r, class)
}

/// the files of a case, written without faults before the reading starts
fn prepare_file(case: &J, path: &str, id: &str) -> Res<Vec<u8>> {
    must_write(path, &specs_of(case), id)?;
    Ok(simos::get_file(path).unwrap_or_default())
}

/// open (phase 1), get_tree (2), iteration (3); stops at the first panic or
/// error of open, continues with the other branches after a loud one
pub fn session(path: &str, specs: &[Spec], apis: u64, id: &str) -> Res<Vec<Seen>> {
    simos::set_phase(1);
    let mut f = match guard(|| RootFile::open(path)) {
        Ok(Ok(f)) => f,
        Ok(Err(e)) => return Ok(vec![Seen::OpenErr(format!("{e:?}"))]),
        Err(m) => return Ok(vec![Seen::OpenPanic(m)]),
    };
    let keys: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
    let want: Vec<String> = specs.iter().map(|s| s.name.clone()).collect();
    if keys != want {
        viol!(format!("{id}/keys"), "the file lists {keys:?} instead of {want:?}");
    }
    let mut out = vec![];
    for s in newest(specs) {
        simos::set_phase(2);
        let t = match guard(|| f.get_tree(&s.name)) {
            Ok(Ok(t)) => t,
            Ok(Err(e)) => {
                out.push(Seen::TreeErr(s.name.clone(), format!("{e:?}")));
                continue;
            }
            Err(m) => {
                out.push(Seen::TreePanic(s.name.clone(), m));
                continue;
            }
        };
        check_shape(&t, s, id)?;
        simos::set_phase(3);
        for (i, (b, c)) in t.branches().zip(&s.cols).enumerate() {
            match read_col(b, c, api_of(apis + i as u64), id)? {
                RStat::Complete => {}
                RStat::Loud(at, m) => out.push(Seen::Loud(format!("{:?} item {at}: {m}", c.name))),
            }
        }
    }
    simos::set_phase(0);
    if out.is_empty() {
        out.push(Seen::Complete);
    }
    Ok(out)
}

// ------------------------------------------------------------------ C05
pub struct C05;
impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 6000, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 80_000, wall: 780, cpu: 60 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, t: Tier) -> J {
        let o = if idx % 4 == 3 { LARGE } else if idx % 4 == 2 { MEDIUM } else { SMALL };
        let o = GenOpt { names: false, ..o };
        J::obj()
            .set("trees", specs_j(&few_trees(r, &o)))
            .set("path", "/simfs/f.root")
            .set("apis", r.below(3))
            .set("points", if t == Tier::Quick { 40u64 } else { 120 })
            .set("pseed", r.seed())
            .set("io", if r.below(2) == 0 { gen_io(r) } else { no_io() })
            .set("rand_seed", r.seed())
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        let specs = specs_of(case);
        let path = path_of(case);
        cx.boot(&cfg);
        path_of(case);
        let image = prepare_file(case, &path, "C05")?;
        simos::with(|s| s.apply(&cfg));
        let apis = case.u("apis");
        match session(&path, &specs, apis, "C05")?.as_slice() {
            [Seen::Complete] => {}
            o => viol!("C05/read-failed", "without faults: {o:?}"),
        }
        let cen = census(&[1, 2, 3], RCLASSES);
        let mut r = Rng::new(case.u("pseed"));
        let plans: Vec<Vec<Fault>> = match faults_of(case) {
            Some(f) => vec![f],
            None => {
                let mut v = vec![];
                for (phase, class, nth) in points(&mut r, &cen, case.u("points") as usize) {
                    let mut kind = error_kind(&mut r, class);
                    let mut persist = r.below(2) == 0;
                    if r.below(3) == 0 {
                        // the file is cut while it is being read
                        kind = Kind::Trunc(Some(if r.below(3) == 0 { 0 } else { r.below(image.len() as u64 + 1) }));
                        persist = false;
                    }
                    let mut f = vec![Fault { phase, class, nth, kind, persist }];
                    if r.below(6) == 0 {
                        let (p2, c2, n2) = *r.pick(&cen);
                        f.push(Fault { phase: p2, class: c2, nth: r.range(1, n2), kind: error_kind(&mut r, c2), persist: false });
                    }
                    v.push(f);
                }
                v
            }
        };
        for faults in plans {
            cx.boot(&Config { faults: faults.clone(), ..cfg.clone() });
            path_of(case);
            simos::put_file(&path, &image);
            let res = session(&path, &specs, apis, "C05");
            let fired = simos::faults_fired() > 0;
            let narrow = |mut v: Viol| {
                v.narrowed = Some(with_faults(case, &faults));
                v.msg = format!("{} (fault {})", v.msg, with_faults(case, &faults).get("faults"));
                v
            };
            let seen = res.map_err(narrow)?;
            for s in &seen {
                match s {
                    Seen::Complete => {
                        if fired {
                            cx.probe("fault survived with complete data")
                        }
                    }
                    Seen::Loud(_) => cx.probe("iteration failed loudly"),
                    Seen::OpenErr(_) | Seen::OpenPanic(_) => cx.probe("open failed"),
                    Seen::TreeErr(..) | Seen::TreePanic(..) => cx.probe("get_tree failed"),
                }
                if !fired && *s != Seen::Complete {
                    return Err(narrow(Viol::new("C05/read-failed", format!("no fault was met: {s:?}"))));
                }
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one case is a reading session (open, fetch, iterate every branch through one of three interfaces) repeated once per selected call with that call failing (EIO, ESTALE, premature end of file, file cut to a random length, failing open/seek; once or from then on; sometimes two faults); every value delivered is compared with the written one; non-trivial if a fault or short transfer occurred"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
}

// ------------------------------------------------------------------ C06
pub struct C06;
impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 9000, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 80_000, wall: 780, cpu: 60 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, t: Tier) -> J {
        let o = if idx % 8 == 7 { MEDIUM } else { SMALL };
        let trees = few_trees(r, &o);
        J::obj()
            .set("trees", specs_j(&trees))
            .set("fixture", if r.below(3) == 0 { *r.pick(crate::props::fixtures::SMALL_FILES) } else { "" })
            .set("path", "/simfs/f.root")
            .set("points", if t == Tier::Quick { 40u64 } else { 120 })
            .set("pseed", r.seed())
            .set("io", if r.below(2) == 0 { gen_io(r) } else { no_io() })
            .set("rand_seed", r.seed())
    }
    fn prepare(&self) {
        crate::props::fixtures::load();
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        let path = path_of(case);
        let fixture = case.s("fixture");
        let specs = if fixture.is_empty() { specs_of(case) } else { vec![] };
        cx.boot(&cfg);
        path_of(case);
        let image = if fixture.is_empty() { prepare_file(case, &path, "C06")? } else { crate::props::fixtures::bytes(fixture).to_vec() };
        simos::put_file(&path, &image);
        simos::with(|s| s.apply(&cfg));
        // fault-free: names of the trees, and the census of calls
        let names = match attempt(&path, &[], &specs)? {
            Got::All(n) => n,
            g => viol!("C06/read-failed", "without faults: {g:?}"),
        };
        let cen = census(&[1, 2], RCLASSES);
        let mut r = Rng::new(case.u("pseed"));
        let plans: Vec<(Vec<Fault>, u64, bool)> = match faults_of(case) {
            Some(f) => vec![(f, case.u("fds").max(0), case.b("unreadable"))],
            None => {
                let mut v: Vec<(Vec<Fault>, u64, bool)> = points(&mut r, &cen, case.u("points") as usize)
                    .into_iter()
                    .map(|(phase, class, nth)| {
                        let persist = r.below(2) == 0;
                        (vec![Fault { phase, class, nth, kind: error_kind(&mut r, class), persist }], 0, false)
                    })
                    .collect();
                for k in 1..4 {
                    v.push((vec![], k, false));
                }
                v.push((vec![], 0, true));
                v
            }
        };
        for (faults, fds, unreadable) in plans {
            // `fds` limits how many more descriptors may be opened (1 means none)
            let limit = if fds > 0 { fds - 1 } else { 1000 };
            cx.boot(&Config { faults: faults.clone(), fd_limit: limit, ..cfg.clone() });
            path_of(case);
            simos::put_file(&path, &image);
            simos::set_unreadable(&path, unreadable);
            let small = with_faults(case, &faults).set("fds", fds).set("unreadable", J::B(unreadable));
            let narrow = |mut v: Viol| {
                v.msg = format!("{} (faults {}, descriptors {fds}, unreadable {unreadable})", v.msg, small.get("faults"));
                v.narrowed = Some(small.clone());
                v
            };
            let res = self.faulty(&path, &names, &specs, &cfg, cx, unreadable).map_err(narrow);
            res?;
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one case is open + list + get_tree of every tree (written or ROOT-made file) repeated once per selected call of these with that call failing, with few descriptors left, and with the file unreadable; after the error the fault is removed and the same call is made again; non-trivial if a fault or short transfer occurred"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
}
#[derive(Debug)]
enum Got {
    All(Vec<String>),
    Bad(String),
}
/// open and fetch everything, phases 1 and 2
fn attempt(path: &str, _names: &[String], specs: &[Spec]) -> Res<Got> {
    simos::set_phase(1);
    let mut f = match guard(|| RootFile::open(path)) {
        Ok(Ok(f)) => f,
        e => return Ok(Got::Bad(format!("open: {:?}", e.map(|r| r.err())))),
    };
    let names: Vec<String> = tree_names(&f);
    simos::set_phase(2);
    for n in &names {
        match guard(|| f.get_tree(n)) {
            Ok(Ok(t)) => {
                if let Some(s) = newest(specs).iter().find(|s| s.name == *n) {
                    check_shape(&t, s, "C06")?;
                }
            }
            e => return Ok(Got::Bad(format!("get_tree({n:?}): {:?}", e.map(|r| r.err())))),
        }
    }
    simos::set_phase(0);
    Ok(Got::All(names))
}
impl C06 {
    fn faulty(&self, path: &str, names: &[String], specs: &[Spec], cfg: &Config, cx: &mut Cx, unreadable: bool) -> Res<()> {
        simos::set_phase(1);
        let before = simos::open_fds();
        let clean = |p: &str, cfg: &Config| {
            simos::with(|s| s.apply(cfg));
            simos::set_unreadable(p, false);
        };
        let mut f = match guard(|| RootFile::open(path)) {
            Ok(Ok(f)) => f,
            Ok(Err(_)) => {
                cx.probe("error from open");
                if simos::open_fds() != before {
                    viol!("C06/leak", "a descriptor stays open after open returned an error");
                }
                clean(path, cfg);
                match guard(|| RootFile::open(path)) {
                    Ok(Ok(f)) => f,
                    e => viol!("C06/retry", "open still fails after the fault is gone: {:?}", e.map(|r| r.err())),
                }
            }
            Err(m) => viol!("C06/open-panic", "open panicked: {m}"),
        };
        if unreadable {
            clean(path, cfg);
        }
        let got = tree_names(&f);
        if got != names {
            viol!("C06/keys", "the file lists {got:?} instead of {names:?}");
        }
        simos::set_phase(2);
        for n in names {
            let t = match guard(|| f.get_tree(n)) {
                Ok(Ok(t)) => t,
                Ok(Err(_)) => {
                    cx.probe("error from get_tree");
                    clean(path, cfg);
                    match guard(|| f.get_tree(n)) {
                        Ok(Ok(t)) => t,
                        e => viol!("C06/retry", "get_tree({n:?}) still fails after the fault is gone: {:?}", e.map(|r| r.err())),
                    }
                }
                Err(m) => viol!("C06/get-tree-panic", "get_tree({n:?}) panicked: {m}"),
            };
            if let Some(s) = newest(specs).iter().find(|s| s.name == *n) {
                check_shape(&t, s, "C06")?;
                simos::set_phase(0);
                // the data behind it is the right one as well
                for (b, c) in t.branches().zip(&s.cols) {
                    read_col(b, c, Api::Iter, "C06")?;
                }
                simos::set_phase(2);
            }
        }
        simos::set_phase(0);
        drop(f);
        if simos::open_fds() != before {
            viol!("C06/leak", "{} descriptors stay open after everything was dropped", simos::open_fds() - before);
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C07
pub struct C07;
const CAP: usize = 512 << 20;
impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 24000, wall: 60, cpu: 30 },
            Tier::Thorough => Plan { cases: 100_000, wall: 780, cpu: 30 },
        }
    }
    fn prepare(&self) {
        crate::props::fixtures::load();
    }
    fn gen(&self, r: &mut Rng, _idx: u64, t: Tier) -> J {
        let j = J::obj().set("path", "/simfs/f.root").set("io", if r.below(2) == 0 { gen_io(r) } else { no_io() }).set("pseed", r.seed()).set("rand_seed", r.seed());
        match r.below(8) {
            0 => j.set("mode", "foreign").set("points", if t == Tier::Quick { 60u64 } else { 200 }),
            1..=5 => j.set("mode", "cut").set("trees", specs_j(&few_trees(r, &SMALL))).set("points", if t == Tier::Quick { 60u64 } else { 200 }).set("apis", r.below(3)),
            _ => j.set("mode", "cut-fixture").set("fixture", *r.pick(crate::props::fixtures::SMALL_FILES)).set("points", if t == Tier::Quick { 30u64 } else { 100 }),
        }
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        let path = path_of(case);
        let mode = case.s("mode").to_string();
        let specs = specs_of(case);
        let mut r = Rng::new(case.u("pseed"));
        cx.boot(&cfg);
        path_of(case);
        let image = match mode.as_str() {
            "foreign" => vec![],
            "cut" => prepare_file(case, &path, "C07")?,
            _ => crate::props::fixtures::bytes(case.s("fixture")).to_vec(),
        };
        let n = image.len() as u64;
        let mut list: Vec<(u64, u64)> = vec![];
        match case.get("points") {
            J::A(v) => {
                for p in v {
                    if let J::A(q) = p {
                        list.push((q[0].as_i() as u64, q[1].as_i() as u64));
                    }
                }
            }
            p => {
                for i in 0..p.as_i() as u64 {
                    if mode == "foreign" {
                        list.push((r.below(FOREIGN), r.below(1 << 40)));
                    } else {
                        // cut, cut and padded with zeros, header or front block zeroed
                        let how = *r.pick(&[0u64, 0, 0, 1, 2, 3]);
                        let at = match i % 5 {
                            0 => r.below(n.min(400) + 1),
                            1 => n.saturating_sub(1 + r.below(400.min(n))),
                            _ => r.below(n),
                        };
                        list.push((how, at));
                    }
                }
                if mode != "foreign" {
                    list.push((0, 0));
                    list.push((0, n.saturating_sub(1)));
                    list.push((2, 100));
                    list.push((2, 64));
                    list.push((2, 4));
                    list.push((1, n.saturating_sub(1)));
                }
            }
        }
        for (how, at) in list {
            let img = if mode == "foreign" { foreign(how, at) } else { damage(&image, how, at) };
            if img == image && mode != "foreign" {
                continue;
            }
            cx.boot(&cfg);
            path_of(case);
            simos::put_file(&path, &img);
            let narrow = |mut v: Viol| {
                v.narrowed = Some(case.clone().set("points", J::A(vec![J::A(vec![J::I(how as i64), J::I(at as i64)])])));
                v.msg = format!("{} ({mode}, variant {how} at {at}, {} bytes)", v.msg, img.len());
                v
            };
            simos::with(|s| *s.stats.fired.entry(format!("{mode} file, variant {how}")).or_insert(0) += 1);
            crate::alloc::set_cap(CAP);
            crate::alloc::reset_peak();
            let base = crate::alloc::current();
            let res = match mode.as_str() {
                "cut-fixture" => open_any(&path, cx),
                "foreign" => open_any(&path, cx),
                _ => cut_own(&path, &specs, case.u("apis"), cx),
            };
            let peak = (crate::alloc::peak() - base).max(0) as usize;
            crate::alloc::set_cap(usize::MAX);
            if let (Err(v), true) = (&res, std::env::var("SIM_SURVEY").is_ok()) {
                let m = v.msg.clone();
                cx.probe(&m[m.find(" at /").unwrap_or(0)..]);
                continue;
            }
            res.map_err(narrow)?;
            if peak > 64 * img.len() + (32 << 20) {
                return Err(narrow(Viol::new("C07/memory", format!("{peak} bytes were allocated for a file of {} bytes", img.len()))));
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one case takes a complete written or ROOT-made file and opens it cut at selected bytes, cut and zero-filled, with the front block or a middle block zeroed; or opens foreign files (text, executables, archives, random bytes, a root magic followed by text, zeros or noise); each damaged file is one evaluation"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
}
fn damage(img: &[u8], how: u64, at: u64) -> Vec<u8> {
    let at = (at as usize).min(img.len());
    match how {
        // cut
        0 => img[..at].to_vec(),
        // the tail never reached the disk, the length did
        1 => {
            let mut v = img.to_vec();
            v[at..].fill(0);
            v
        }
        // the leading block was never written
        2 => {
            let mut v = img.to_vec();
            v[..at.min(512)].fill(0);
            v
        }
        // cut inside the last page, zero-filled to the page boundary
        _ => {
            let mut v = img[..at].to_vec();
            v.resize((at + 4095) / 4096 * 4096, 0);
            v
        }
    }
}
const FOREIGN: u64 = 12;
fn foreign(kind: u64, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let n = match r.below(4) {
        0 => r.below(100),
        1 => r.below(1000),
        _ => r.below(20_000),
    } as usize;
    let noise = |r: &mut Rng, n: usize| -> Vec<u8> { (0..n).map(|_| r.next() as u8).collect() };
    match kind {
        0 => vec![],
        1 => vec![0; n],
        2 => noise(&mut r, n),
        3 => "root:x:0:0:root:/root:/bin/bash\ndaemon:x:1:1:daemon:/usr/sbin:/usr/sbin/nologin\nbin:x:2:2:bin:/bin:/usr/sbin/nologin\n".repeat(1 + n / 100).into_bytes(),
        4 => [b"\x7fELF\x02\x01\x01\0".to_vec(), noise(&mut r, n)].concat(),
        5 => [b"\x1f\x8b\x08\0".to_vec(), noise(&mut r, n)].concat(),
        6 => "<html><body>404 not found</body></html>\n".repeat(1 + n / 40).into_bytes(),
        7 => [b"\x89HDF\r\n\x1a\n".to_vec(), noise(&mut r, n)].concat(),
        // the right magic followed by something else
        8 => [b"root".to_vec(), vec![0; n]].concat(),
        9 => [b"root is the administrator account. ".to_vec(), b"lorem ipsum dolor sit amet ".repeat(1 + n / 27)].concat(),
        10 => vec![0xff; n],
        _ => [b"root\n".to_vec(), "key = value\n".repeat(1 + n / 12).into_bytes()].concat(),
    }
}
fn open_any(path: &str, cx: &mut Cx) -> Res<()> {
    match guard(|| RootFile::open(path)) {
        Ok(Err(_)) => {
            cx.probe("refused");
            Ok(())
        }
        Err(m) => viol!("C07/open-panic", "open panicked: {m}"),
        Ok(Ok(mut f)) => {
            cx.probe("opened although damaged");
            for n in tree_names(&f) {
                match guard(|| f.get_tree(&n)) {
                    Ok(Ok(_)) => cx.probe("tree of a damaged file fetched"),
                    Ok(Err(_)) => cx.probe("get_tree refused"),
                    Err(m) => viol!("C07/get-tree-panic", "get_tree({n:?}) panicked: {m}"),
                }
            }
            Ok(())
        }
    }
}
fn cut_own(path: &str, specs: &[Spec], apis: u64, cx: &mut Cx) -> Res<()> {
    for s in try_read(path, specs, apis, "C07", false)? {
        match s {
            Seen::OpenErr(_) => cx.probe("refused"),
            Seen::OpenPanic(m) => viol!("C07/open-panic", "open panicked: {m}"),
            Seen::TreePanic(n, m) => viol!("C07/get-tree-panic", "get_tree({n:?}) panicked: {m}"),
            Seen::TreeErr(..) => cx.probe("get_tree refused"),
            Seen::Loud(_) => cx.probe("iteration failed loudly"),
            Seen::Complete => cx.probe("damaged file read completely"),
        }
    }
    Ok(())
}
