//! C02 (complete when close returns), C03 (write failures are reported),
//! C04 (a writer that dies leaves nothing misleading).
use crate::engine::{cfg_of, gen_io, guard, no_io, Cx, Plan, Prop, Res, Tier, Viol};
use crate::faults::*;
use crate::json::J;
use crate::rng::Rng;
use crate::simos::{self, Class, Config, Fault, Kind, Op};
use crate::store::Store;
use crate::viol;
use crate::world::*;
use oxyroot::RootFile;
use std::collections::BTreeMap;

fn gen_trees(r: &mut Rng, max: u64, o: &GenOpt) -> Vec<Spec> {
    let k = if r.below(3) == 0 { r.range(1, max) } else { 1 };
    let mut v: Vec<Spec> = (0..k).map(|_| gen_spec(r, o)).collect();
    for (i, s) in v.iter_mut().enumerate() {
        if r.below(4) != 0 {
            s.name = format!("t{i}");
        }
    }
    v
}

// ------------------------------------------------------------------ C02
pub struct C02;
impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 20000, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 150_000, wall: 780, cpu: 60 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> J {
        let o = if idx % 8 == 7 { LARGE } else if idx % 8 > 4 { MEDIUM } else { SMALL };
        let trees = gen_trees(r, 4, &o);
        J::obj()
            .set("trees", specs_j(&trees))
            .set("path", gen_path(r).as_str())
            .set("apis", r.below(3))
            .set("end", idx % 4)
            .set("io", gen_io(r))
            .set("rand_seed", r.seed())
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        cx.boot(&cfg);
        let specs = specs_of(case);
        let path = path_of(case);
        let mut f = match guard(|| RootFile::create(&path)) {
            Ok(Ok(f)) => f,
            e => viol!("C02/write-failed", "create: {:?}", e.map(|r| r.err())),
        };
        match write_into(&mut f, &specs) {
            WOut::Done => {}
            o => viol!("C02/write-failed", "{o:?}"),
        }
        match guard(|| f.close()) {
            Ok(Ok(())) => {}
            e => viol!("C02/write-failed", "close: {e:?}"),
        }
        note_specs(cx, &specs);
        // the image a crash at this instant leaves
        let image = simos::get_file(&path).unwrap_or_default();
        let apis = case.u("apis");
        match case.u("end") {
            0 => {
                cx.probe("died right after close");
                std::mem::forget(f);
            }
            1 => {
                cx.probe("another reader while the writer object lives");
                must_read(&path, &specs, apis, "C02")?;
                if let Err(m) = guard(move || drop(f)) {
                    viol!("C02/drop-panic", "dropping the closed file panicked: {m}");
                }
            }
            2 => {
                cx.probe("disk gone after close");
                let mut c2 = cfg.clone();
                for class in [Class::Write, Class::Seek, Class::Trunc, Class::Sync] {
                    c2.faults.push(Fault { phase: 0, class, nth: 1, kind: Kind::Errno(libc::EIO), persist: true });
                }
                simos::with(|s| s.apply(&c2));
                if let Err(m) = guard(move || drop(f)) {
                    viol!("C02/drop-panic", "dropping the closed file panicked: {m}");
                }
                simos::with(|s| s.apply(&cfg));
            }
            _ => {
                cx.probe("dropped normally");
                drop(f);
            }
        }
        let after = simos::get_file(&path).unwrap_or_default();
        if after != image && case.u("end") == 3 {
            // bytes may still be flushed, what close promised must be there anyway
            cx.probe("drop changed the file");
        }
        simos::put_file("/simfs/image", &image);
        must_read("/simfs/image", &specs, apis, "C02")?;
        must_read(&path, &specs, apis + 1, "C02")
    }
    fn rule(&self) -> &'static str {
        "one case writes random trees, takes the disk image at the instant close returns success and then kills, keeps, breaks the disk of, or drops the writer; the image must be complete; non-trivial if calls were split or interrupted or the disk failed after close"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
}

// ------------------------------------------------------------------ C03
#[derive(Clone, Debug, PartialEq)]
struct Session {
    out: WOut,
    leaked: bool,
}
/// create (phase 1), write (2), close (3), drop (4)
fn phased(path: &str, specs: &[Spec]) -> Session {
    let before = simos::open_fds();
    let out = phased_inner(path, specs);
    simos::set_phase(0);
    Session { out, leaked: simos::open_fds() != before }
}
fn phased_inner(path: &str, specs: &[Spec]) -> WOut {
    simos::set_phase(1);
    let mut f = match guard(|| RootFile::create(path)) {
        Ok(Ok(f)) => f,
        Ok(Err(e)) => return WOut::Err("create", format!("{e:?}")),
        Err(m) => return WOut::Panic("create", m),
    };
    simos::set_phase(2);
    let mut r = write_into(&mut f, specs);
    if r.ok() {
        simos::set_phase(3);
        r = match guard(|| f.close()) {
            Ok(Ok(())) => WOut::Done,
            Ok(Err(e)) => WOut::Err("close", format!("{e:?}")),
            Err(m) => WOut::Panic("close", m),
        };
    }
    simos::set_phase(4);
    if let Err(m) = guard(move || drop(f)) {
        return WOut::Panic("drop", m);
    }
    r
}
const WCLASSES: &[Class] = &[Class::Open, Class::Write, Class::Seek, Class::Sync, Class::Stat, Class::Dup, Class::Dir, Class::Trunc, Class::Read];

pub struct C03;
impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 3500, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 60_000, wall: 780, cpu: 60 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, t: Tier) -> J {
        let o = if idx % 8 == 7 { MEDIUM } else { SMALL };
        let trees = gen_trees(r, 3, &o);
        J::obj()
            .set("trees", specs_j(&trees))
            .set("path", "/simfs/f.root")
            .set("points", if t == Tier::Quick { 40u64 } else { 120 })
            .set("pseed", r.seed())
            .set("io", if r.below(2) == 0 { gen_io(r) } else { no_io() })
            .set("rand_seed", r.seed())
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        let specs = specs_of(case);
        let path = path_of(case);
        cx.boot(&cfg);
        let path2 = path_of(case);
        assert_eq!(path, path2);
        let base = phased(&path, &specs);
        if !base.out.ok() {
            viol!("C03/write-failed", "without faults: {:?}", base.out);
        }
        let image = simos::get_file(&path).unwrap_or_default();
        let cen = census(&[1, 2, 3, 4], WCLASSES);
        let total = simos::stats().bytes_written;
        let mut r = Rng::new(case.u("pseed"));
        let plans: Vec<(Vec<Fault>, Option<u64>)> = match faults_of(case) {
            Some(f) => vec![(f, if case.get("disk").is_null() { None } else { Some(case.u("disk")) })],
            None => {
                let mut v: Vec<(Vec<Fault>, Option<u64>)> = vec![];
                for (phase, class, nth) in points(&mut r, &cen, case.u("points") as usize) {
                    let persist = r.below(3) == 0;
                    v.push((vec![Fault { phase, class, nth, kind: error_kind(&mut r, class), persist }], None));
                }
                // full disks: any size smaller than the file
                for _ in 0..4 {
                    v.push((vec![], Some(r.below(image.len() as u64))));
                }
                v.push((vec![], Some(image.len() as u64 - 1)));
                v
            }
        };
        let _ = total;
        for (faults, disk) in plans {
            cx.boot(&Config { faults: faults.clone(), disk_free: disk, ..cfg.clone() });
            path_of(case);
            let s = phased(&path, &specs);
            let fired = simos::faults_fired() > 0 || simos::stats().fired.values().sum::<u64>() > 0;
            let mut small = with_faults(case, &faults);
            if let Some(d) = disk {
                small.put("disk", d);
            }
            let fail = |class: &str, msg: String| {
                Err(Viol { class: format!("C03/{class}"), msg: format!("{msg} (fault {}{})", small.get("faults"), disk.map(|d| format!(", disk of {d} bytes")).unwrap_or_default()), narrowed: Some(small.clone()) })
            };
            if fired {
                cx.probe(match &s.out {
                    WOut::Done => "fault without consequence",
                    WOut::Err("create", _) => "error from create",
                    WOut::Err("write", _) => "error from write",
                    WOut::Err(_, _) => "error from close",
                    WOut::Panic(_, _) => "panic",
                });
            }
            match &s.out {
                WOut::Panic(w, m) => return fail("panic", format!("{w} panicked: {m}")),
                WOut::Done => {
                    let got = simos::get_file(&path).unwrap_or_default();
                    if got != image {
                        let at = got.iter().zip(&image).take_while(|(a, b)| a == b).count();
                        return fail(
                            "silent-loss",
                            format!("create, write and close returned success, the file has {} bytes instead of {}, first difference at {at}", got.len(), image.len()),
                        );
                    }
                    let sync = faults.iter().any(|f| f.class == Class::Sync && f.phase <= 3) && fired;
                    if sync {
                        return fail("silent-sync", "a failed sync was not reported".into());
                    }
                }
                WOut::Err(w, m) => {
                    if !fired {
                        return fail("spurious-error", format!("{w} failed although no call did: {m}"));
                    }
                }
            }
            if s.leaked {
                return fail("descriptor-leak", "a descriptor stays open after the objects were dropped".into());
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one case is a write session repeated once per selected call (open, write, seek, ...; first, last and sampled ones of create, write, close and drop) with that call failing (EIO, ENOSPC, EDQUOT, EFBIG, zero-length, partial then full; once or from then on) and with disks too small; non-trivial if a fault or short transfer occurred"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
}

// ------------------------------------------------------------------ C04
/// file contents after the first `n` operations, the n+1st done only in part
pub struct Replayer {
    files: BTreeMap<String, Store>,
    inos: BTreeMap<usize, String>,
}
impl Replayer {
    pub fn new(before: &[(String, Vec<u8>)], inos: &[(usize, String)]) -> Replayer {
        Replayer {
            files: before.iter().map(|(n, d)| (n.clone(), Store::from_bytes(d))).collect(),
            inos: inos.iter().cloned().collect(),
        }
    }
    pub fn apply(&mut self, op: &Op) {
        match op {
            Op::Create(i, p) => {
                self.files.insert(p.clone(), Store::default());
                self.inos.insert(*i, p.clone());
            }
            Op::Write(i, off, d) => {
                if let Some(p) = self.inos.get(i) {
                    if let Some(s) = self.files.get_mut(p) {
                        s.write(*off, d);
                    }
                }
            }
            Op::Trunc(i, l) => {
                if let Some(p) = self.inos.get(i) {
                    if let Some(s) = self.files.get_mut(p) {
                        s.truncate(*l);
                    }
                }
            }
            Op::Unlink(p) => {
                self.files.remove(p);
            }
            Op::Rename(a, b) => {
                if let Some(s) = self.files.remove(a) {
                    self.files.insert(b.clone(), s);
                }
                for p in self.inos.values_mut() {
                    if p == a {
                        *p = b.clone();
                    }
                }
            }
        }
    }
    pub fn get(&self, p: &str) -> Option<Vec<u8>> {
        self.files.get(p).map(|s| s.to_vec())
    }
}

/// a left-over file: refused, or exact
fn check_leftover(path: &str, specs: &[Spec], apis: u64, cx: &mut Cx) -> Res<()> {
    let seen = try_read(path, specs, apis, "C04", false)?;
    for s in seen {
        match s {
            Seen::OpenErr(_) => cx.probe("left-over refused by open"),
            Seen::TreeErr(..) => cx.probe("left-over refused by get_tree"),
            Seen::Complete => cx.probe("left-over complete"),
            Seen::OpenPanic(m) => viol!("C04/panic", "opening the left-over panicked: {m}"),
            Seen::TreePanic(t, m) => viol!("C04/panic", "get_tree({t:?}) on the left-over panicked: {m}"),
            Seen::Loud(m) => viol!("C04/partial-data", "the left-over opens and lists the tree but cannot be read: {m}"),
        }
    }
    Ok(())
}

pub struct C04;
impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 16000, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 80_000, wall: 780, cpu: 60 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, t: Tier) -> J {
        let o = if idx % 8 == 7 { MEDIUM } else { SMALL };
        let trees = gen_trees(r, 3, &o);
        let rows: u64 = trees.iter().map(|t| t.entries()).max().unwrap_or(0);
        J::obj()
            .set("trees", specs_j(&trees))
            .set("path", "/simfs/f.root")
            .set("over", J::B(r.below(3) == 0))
            .set("apis", r.below(3))
            .set("mode", *r.pick(&["crash", "crash", "crash", "unwind", "callback", "drop", "abandon"]))
            .set("row", r.below(rows + 2))
            .set("tree", r.below(trees.len() as u64))
            .set("points", if t == Tier::Quick { 50u64 } else { 160 })
            .set("pseed", r.seed())
            .set("io", if r.below(2) == 0 { gen_io(r) } else { no_io() })
            .set("rand_seed", r.seed())
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        let specs = specs_of(case);
        let path = path_of(case);
        cx.boot(&Config { log_ops: true, ..cfg.clone() });
        let apis = case.u("apis");
        // sometimes an older complete file is being replaced
        let mut before = vec![];
        let mut inos = vec![];
        if case.b("over") {
            let old = Spec { name: "old".into(), cols: vec![Col { name: "o".into(), ty: "i64".into(), n: 20_000, mode: 0, seed: 5 }] };
            must_write(&path, &[old], "C04")?;
            before.push((path.clone(), simos::get_file(&path).unwrap()));
            simos::with(|s| s.ops = Some(vec![]));
        }
        let ino = simos::with(|s| s.names_get(&path));
        if let Some(i) = ino {
            inos.push((i, path.clone()));
        }
        match case.s("mode") {
            "crash" => self.crash(case, cx, &cfg, &specs, &path, apis, before, inos),
            m => self.unwind(case, cx, &specs, &path, apis, m),
        }
    }
    fn rule(&self) -> &'static str {
        "one case records the disk operations of a write session and rebuilds the file as a process killed after each selected operation, or inside it (a prefix of the bytes), leaves it; or unwinds the writer by a panic in a provider or callback at a chosen row; or drops it unclosed; each left-over is one evaluation"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
}
impl C04 {
    #[allow(clippy::too_many_arguments)]
    fn crash(
        &self,
        case: &J,
        cx: &mut Cx,
        cfg: &Config,
        specs: &[Spec],
        path: &str,
        apis: u64,
        before: Vec<(String, Vec<u8>)>,
        inos: Vec<(usize, String)>,
    ) -> Res<()> {
        must_write(path, specs, "C04")?;
        let ops = simos::with(|s| s.ops.take()).unwrap_or_default();
        let full = simos::get_file(path).unwrap_or_default();
        let n = ops.len() as u64;
        let mut r = Rng::new(case.u("pseed"));
        // (operations done, how the next one is torn)
        let mut pts: Vec<(u64, u64)> = vec![];
        match case.get("cut") {
            J::A(v) => pts.push((v.first().map(|x| x.as_i()).unwrap_or(0) as u64, v.get(1).map(|x| x.as_i()).unwrap_or(0) as u64)),
            _ => {
                let want = case.u("points");
                let close_ops = 14.min(n);
                for k in (n - close_ops)..=n {
                    pts.push((k, 0));
                    pts.push((k, 1 + r.below(1 << 40)));
                    pts.push((k, 1 + r.below(1 << 40)));
                }
                for k in 0..6.min(n) {
                    pts.push((k, 0));
                    pts.push((k, 1 + r.below(1 << 40)));
                }
                while (pts.len() as u64) < want {
                    pts.push((r.below(n + 1), if r.below(2) == 0 { 0 } else { 1 + r.below(1 << 40) }));
                }
                pts.sort();
                pts.dedup();
            }
        }
        let mut rp = Replayer::new(&before, &inos);
        let mut done = 0u64;
        for (k, torn) in pts {
            let k = k.min(n);
            while done < k {
                rp.apply(&ops[done as usize]);
                done += 1;
            }
            let mut img = rp.get(path);
            if torn > 0 && k < n {
                if let Op::Write(i, off, d) = &ops[k as usize] {
                    let mut tmp = Store::from_bytes(&img.clone().unwrap_or_default());
                    if rp.inos.get(i).map(|p| p == path).unwrap_or(false) {
                        tear(&mut tmp, *off, d, torn);
                        img = Some(tmp.to_vec());
                        cx.probe("torn write");
                    }
                }
            }
            let Some(img) = img else {
                cx.probe("no file left");
                continue;
            };
            cx.boot(cfg);
            // the machine after the crash: only the disk survived
            simos::put_file(path, &img);
            simos::with(|s| *s.stats.fired.entry(if torn > 0 { "crash inside a write".into() } else { "crash between operations".to_string() }).or_insert(0) += 1);
            let complete_old = case.b("over") && before.first().map(|b| b.1 == img).unwrap_or(false);
            if complete_old {
                continue;
            }
            if img == full {
                cx.probe("crash after the last operation");
            }
            if let Err(mut v) = check_leftover(path, specs, apis, cx) {
                v.msg = format!("killed after {k} of {n} operations{}: {}", if torn > 0 { " and a part of the next" } else { "" }, v.msg);
                v.narrowed = Some(case.clone().set("cut", J::A(vec![J::I(k as i64), J::I(torn as i64)])));
                return Err(v);
            }
        }
        Ok(())
    }

    fn unwind(&self, case: &J, cx: &mut Cx, specs: &[Spec], path: &str, apis: u64, mode: &str) -> Res<()> {
        let (row, ti) = (case.u("row"), case.u("tree") as usize);
        let r = guard(|| -> Result<(), String> {
            let mut f = RootFile::create(path).map_err(|e| format!("{e:?}"))?;
            for (i, s) in specs.iter().enumerate() {
                if i == ti && mode == "drop" {
                    break;
                }
                let mut t = new_tree(s);
                if i == ti && mode == "abandon" {
                    // the tree object is dropped without being written
                    break;
                }
                if i == ti && mode == "unwind" {
                    t.new_branch(
                        "bomb",
                        (0..row + 1).map(move |k| {
                            if k == row {
                                panic!("provider failed")
                            }
                            k
                        }),
                    );
                }
                if i == ti && mode == "callback" {
                    let mut left = row * (s.cols.len() as u64 + 1) + 1;
                    t.add_callback(Box::new(move |_| {
                        left -= 1;
                        if left == 0 {
                            panic!("callback failed")
                        }
                    }));
                }
                t.write(&mut f).map_err(|e| format!("{e:?}"))?;
            }
            if mode == "drop" || mode == "abandon" {
                return Ok(());
            }
            f.close().map_err(|e| format!("{e:?}"))
        });
        simos::with(|s| *s.stats.fired.entry(format!("user {mode}")).or_insert(0) += 1);
        match &r {
            Err(m) if m.contains("provider failed") || m.contains("callback failed") => cx.probe("unwound through the writer"),
            Err(m) => viol!("C04/writer-panic", "the writer panicked: {m}"),
            Ok(Err(e)) => viol!("C04/write-failed", "{e}"),
            Ok(Ok(())) => {
                if mode == "unwind" || mode == "callback" {
                    // the bomb lay beyond the last row
                    cx.probe("writing finished before the panic");
                    return Ok(());
                }
            }
        }
        if simos::get_file(path).is_none() {
            cx.probe("no file left");
            return Ok(());
        }
        check_leftover(path, specs, apis, cx)
    }
}

/// does a part of a write: a prefix of its bytes
fn tear(s: &mut Store, off: u64, d: &[u8], how: u64) {
    let mut r = Rng::new(how);
    match r.below(2) {
        0 => {
            let n = r.below(d.len() as u64 + 1) as usize;
            s.write(off, &d[..n]);
        }
        _ => {
            let n = (d.len() as u64).saturating_sub(r.range(1, 16)) as usize;
            s.write(off, &d[..n]);
        }
    }
}
