//! C13 (several trees and cycles in a file), C14 (reading changes nothing,
//! creating replaces), C17 (same data, same bytes), C19 (the opened file stays
//! the opened file).
use crate::engine::{cfg_of, gen_io, guard, no_io, Cx, Plan, Prop, Res, Tier, Viol};
use crate::faults::*;
use crate::json::J;
use crate::rng::Rng;
use crate::simos::{self, Class, Config, Fault, Kind};
use crate::viol;
use crate::world::*;
use oxyroot::{ReaderTree, RootFile};
use std::rc::Rc;

/// a tree whose third of the rows a provider panics
fn write_bomb(f: &mut RootFile, s: &Spec, row: u64) -> Res<()> {
    let mut t = new_tree(s);
    t.new_branch(
        "bomb",
        (0..).map(move |k: u64| {
            if k == row {
                panic!("provider failed")
            }
            k
        }),
    );
    match guard(|| t.write(f)) {
        Err(m) if m.contains("provider failed") => Ok(()),
        e => viol!("C13/write-failed", "the panic of a provider came back as {e:?}"),
    }
}

// ------------------------------------------------------------------ C13
pub struct C13;
impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 14000, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 250_000, wall: 780, cpu: 60 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> J {
        if idx == 5 || idx == 20_005 {
            // more versions of a name than their number can count
            return J::obj().set("mode", "many").set("versions_kind", 32_768 + r.range(1, 40)).set("io", no_io()).set("rand_seed", r.seed());
        }
        let o = if idx % 16 == 15 { LARGE } else if idx % 8 > 4 { MEDIUM } else { SMALL };
        let n = match r.below(12) {
            0 => 0,
            1..=6 => r.range(1, 4),
            7..=10 => r.range(3, 9),
            _ => r.range(10, 60),
        };
        let o = if n > 9 { GenOpt { col_bytes: 2000, max_cols: 2, ..SMALL } } else { o };
        let pool: Vec<String> = (0..r.range(1, 6)).map(|_| gen_name(r, true)).collect();
        let pool: Vec<String> = match r.below(4) {
            0 => ["t", "tt", "ttt", "T", "t ", "t;1", "", "t;2"].iter().map(|s| s.to_string()).collect(),
            _ => pool,
        };
        let trees: Vec<Spec> = (0..n)
            .map(|_| {
                let mut s = gen_spec(r, &o);
                s.name = r.pick(&pool).clone();
                s
            })
            .collect();
        let k = r.range(3, 25);
        J::obj()
            .set("trees", specs_j(&trees))
            .set("mode", *r.pick(&["plain", "plain", "two", "bomb"]))
            .set("ops", gen_nums(r, k, 1 << 20))
            .set("io", gen_io(r))
            .set("rand_seed", r.seed())
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        cx.boot(&cfg);
        if case.s("mode") == "many" {
            return self.many(case, cx);
        }
        let specs = specs_of(case);
        let path = "/simfs/f.root";
        // what each file is to hold
        let mut files: Vec<(String, Vec<Spec>)> = vec![(path.into(), vec![])];
        {
            let mut w = vec![];
            let two = case.s("mode") == "two";
            for p in if two { vec![path, "/simfs/g.root"] } else { vec![path] } {
                match guard(|| RootFile::create(p)) {
                    Ok(Ok(f)) => w.push(f),
                    e => viol!("C13/write-failed", "create: {:?}", e.map(|r| r.err())),
                }
            }
            if two {
                cx.probe("two files written alternately");
                files.push(("/simfs/g.root".into(), vec![]));
            }
            for (i, s) in specs.iter().enumerate() {
                let k = i % w.len();
                if case.s("mode") == "bomb" && i % 3 == 1 {
                    write_bomb(&mut w[k], s, s.entries() / 2)?;
                    cx.probe("a tree given up after a panic");
                }
                match write_into(&mut w[k], std::slice::from_ref(s)) {
                    WOut::Done => files[k].1.push(s.clone()),
                    o => viol!("C13/write-failed", "tree {i} {:?}: {o:?}", s.name),
                }
            }
            for mut f in w {
                match guard(|| f.close()) {
                    Ok(Ok(())) => {}
                    e => viol!("C13/write-failed", "close: {e:?}"),
                }
            }
        }
        let mut handles = vec![];
        for (p, specs) in &files {
            let f = must_open(p, "C13")?;
            let keys: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
            let want: Vec<String> = specs.iter().map(|s| s.name.clone()).collect();
            if keys != want {
                viol!("C13/keys", "the file lists {keys:?} instead of {want:?}");
            }
            if want.len() > newest(specs).len() {
                cx.probe("several versions of a tree");
            }
            handles.push(f);
        }
        let mut live: Vec<(Rc<ReaderTree>, Spec)> = vec![];
        for op in nums(case, "ops") {
            let k = (op as usize / 8) % handles.len();
            let f = &mut handles[k];
            let specs = &files[k].1;
            let names: Vec<&Spec> = newest(specs);
            let arg = op / 16;
            match op % 8 {
                0..=3 if !names.is_empty() => {
                    let s = names[arg as usize % names.len()];
                    let t = must_fetch(f, s, "C13")?;
                    self.read(&t, s, arg, 3)?;
                    live.push((t, s.clone()));
                }
                4 => {
                    let base = names.get(arg as usize % names.len().max(1)).map(|s| s.name.clone()).unwrap_or("x".into());
                    let l = base.len();
                    let cut = (0..l).rev().find(|i| base.is_char_boundary(*i)).unwrap_or(0);
                    let q = match (op / 128) % 12 {
                        0 => String::new(),
                        1 => base[..cut].to_string(),
                        2 => format!("{base}x"),
                        3 => base.to_uppercase(),
                        4 => format!("{base};{}", specs.len() + 1 + (op % 50) as usize),
                        5 => format!("{base};0"),
                        6 => format!("{base};"),
                        7 => format!("{base};x"),
                        8 => format!(";{base}"),
                        9 => "no such tree".into(),
                        10 => format!("{base}/{base}"),
                        _ => "z".repeat(3000),
                    };
                    if names.iter().any(|s| s.name == q) {
                        continue;
                    }
                    // a name and the number of one of its versions
                    if let Some((n, c)) = q.split_once(';') {
                        let k = specs.iter().filter(|s| s.name == n).count() as u64;
                        if k > 0 && c.parse::<u64>().map(|c| (1..=k).contains(&c) || c == 9999).unwrap_or(false) {
                            continue;
                        }
                    }
                    cx.probe("a name that was never written");
                    match guard(|| f.get_tree(&q)) {
                        Ok(Err(_)) => {}
                        Ok(Ok(_)) => viol!("C13/unknown-name", "get_tree({q:?}) gave a tree, the file has {:?}", specs.iter().map(|s| &s.name).collect::<Vec<_>>()),
                        Err(m) => viol!("C13/unknown-name", "get_tree({q:?}) panicked: {m}"),
                    }
                }
                5 if !specs.is_empty() => {
                    // a version by its number: if it is given out, it is the right one
                    let s = &specs[arg as usize % specs.len()];
                    let same: Vec<&Spec> = specs.iter().filter(|x| x.name == s.name).collect();
                    let c = same.iter().position(|x| std::ptr::eq(*x, s)).unwrap() + 1;
                    let q = format!("{};{c}", s.name);
                    if names.iter().any(|s| s.name == q) || s.name.contains(';') {
                        continue;
                    }
                    match guard(|| f.get_tree(&q)) {
                        Ok(Err(_)) => {}
                        Ok(Ok(t)) => {
                            cx.probe("a version by its number");
                            check_shape(&t, s, "C13")?;
                            self.read(&Rc::new(t), s, arg, 2)?;
                        }
                        Err(m) => viol!("C13/version", "get_tree({q:?}) panicked: {m}"),
                    }
                }
                6 if !live.is_empty() => {
                    let i = arg as usize % live.len();
                    let (t, s) = &live[i];
                    self.read(t, s, arg, 100)?;
                }
                7 if !live.is_empty() => {
                    let i = arg as usize % live.len();
                    live.swap_remove(i);
                }
                _ => {}
            }
        }
        drop(live);
        drop(handles);
        for (p, specs) in &files {
            must_read(p, specs, case.u("rand_seed") % 3, "C13")?;
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one case writes a sequence of trees (repeated and similar names, one or two files alternately, some trees given up by a panic) and performs random fetches: names, versions, names never written, several trees alive at once; non-trivial if calls were split or interrupted"
    }
}
impl C13 {
    /// versions of one name until they are refused: the accepted ones stay apart
    fn many(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let path = "/simfs/f.root";
        let mut f = match guard(|| RootFile::create(path)) {
            Ok(Ok(f)) => f,
            e => viol!("C13/write-failed", "create: {:?}", e.map(|r| r.err())),
        };
        let mut last = 0;
        for k in 1..=case.u("versions_kind") {
            let mut t = oxyroot::WriterTree::new("t");
            t.new_branch("k", std::iter::once(k as i64));
            match guard(|| t.write(&mut f)) {
                Ok(Ok(())) => last = k,
                Ok(Err(_)) if k > 30_000 => cx.probe("a version refused"),
                e => viol!("C13/write-failed", "version {k}: {e:?}"),
            }
        }
        match guard(|| f.close()) {
            Ok(Ok(())) => {}
            e => viol!("C13/write-failed", "close: {e:?}"),
        }
        drop(f);
        cx.probe("tens of thousands of versions");
        let mut f = must_open(path, "C13")?;
        for (q, want) in [("t".to_string(), last), ("t;1".into(), 1), ("t;777".into(), 777), (format!("t;{last}"), last)] {
            let got = guard(|| match f.get_tree(&q) {
                Ok(t) => Some(t.branch("k").map(|b| b.as_iter::<i64>().map(|i| i.collect::<Vec<_>>()))),
                Err(_) => None,
            });
            match got {
                Ok(Some(Some(Ok(v)))) if v == [want as i64] => {}
                // whether versions can be asked for is not promised
                Ok(None) if q != "t" => {}
                e => viol!("C13/many", "get_tree({q:?}) gave {e:?} instead of version {want}"),
            }
        }
        Ok(())
    }

    fn read(&self, t: &Rc<ReaderTree>, s: &Spec, api: u64, max: usize) -> Res<()> {
        for (i, (b, c)) in t.branches().zip(&s.cols).enumerate().take(max) {
            match read_col(b, c, api_of(api + i as u64), "C13")? {
                RStat::Complete => {}
                RStat::Loud(at, m) => viol!("C13/read-failed", "tree {:?} branch {:?} item {at}: {m}", s.name, c.name),
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C14
pub struct C14;
fn garbage(seed: u64, n: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    (0..n).map(|_| r.below(256) as u8).collect()
}
impl Prop for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 20000, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 250_000, wall: 780, cpu: 60 },
        }
    }
    fn prepare(&self) {
        crate::props::fixtures::load();
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> J {
        let o = if idx % 8 == 7 { MEDIUM } else { SMALL };
        let trees: Vec<Spec> = (0..r.range(1, 3)).map(|_| gen_spec(r, &o)).collect();
        let k = r.range(3, 30);
        let nf = r.below(4);
        let faults: Vec<Fault> = (0..nf)
            .map(|_| {
                let class = *r.pick(&[Class::Open, Class::Read, Class::Read, Class::Seek, Class::Any]);
                Fault { phase: 1, class, nth: 1 + r.below(60), kind: error_kind(r, if class == Class::Any { Class::Seek } else { class }), persist: r.below(5) == 0 }
            })
            .collect();
        let mut j = J::obj()
            .set("trees", specs_j(&trees))
            .set("kind", if idx % 2 == 0 { "read" } else { "over" })
            .set("fixture", *r.pick(crate::props::fixtures::SMALL_FILES))
            .set("cut", r.below(1000))
            .set("ops", gen_nums(r, k, 1 << 20))
            .set("old", r.below(7))
            .set("path", if r.below(4) == 0 { gen_path(r) } else { "/simfs/f.root".into() }.as_str())
            .set("io", gen_io(r))
            .set("rand_seed", r.seed());
        if idx % 2 == 0 {
            j.put("faults", J::A(faults.iter().map(fault_j).collect()));
        }
        j
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        let specs = specs_of(case);
        if case.s("kind") == "over" {
            return self.over(case, cx, &cfg, &specs);
        }
        cx.boot(&cfg);
        let fixture = case.s("fixture");
        must_write("/simfs/f.root", &specs, "C14")?;
        let img = simos::get_file("/simfs/f.root").unwrap_or_default();
        let cut = (img.len() as u64 * case.u("cut") / 1000) as usize;
        simos::put_file("/simfs/cut.root", &img[..cut]);
        simos::put_file("/simfs/junk", &garbage(case.u("cut"), 700));
        simos::put_file("/simfs/fix.root", crate::props::fixtures::bytes(fixture));
        simos::put_file("/simfs/empty", b"");
        simos::add_dir("/simfs/dir");
        let paths = ["/simfs/f.root", "/simfs/cut.root", "/simfs/junk", "/simfs/fix.root", "/simfs/empty", "/simfs/dir", "/simfs/missing", "/simfs/no/dir", "/simfs/f.root/"];
        let snap = || -> Vec<(String, Option<u64>, Option<u64>)> {
            simos::list_files().into_iter().map(|n| (n.clone(), simos::file_hash(&n), simos::file_len(&n))).collect()
        };
        let before = snap();
        let muts = simos::with(|s| s.mutations);
        simos::with(|s| s.apply(&Config { faults: faults_of(case).unwrap_or_default(), ..cfg.clone() }));
        simos::set_phase(1);
        let mut handles: Vec<RootFile> = vec![];
        let mut trees: Vec<Rc<ReaderTree>> = vec![];
        for op in nums(case, "ops") {
            let arg = op / 16;
            match op % 8 {
                0 | 1 => {
                    let p = paths[if op % 8 == 0 { 0 } else { arg as usize % paths.len() }];
                    if let Ok(Ok(f)) = guard(|| RootFile::open(p)) {
                        handles.push(f);
                    } else {
                        cx.probe("open refused");
                    }
                }
                2..=4 if !handles.is_empty() => {
                    let n = handles.len();
                    let f = &mut handles[arg as usize % n];
                    let names = crate::props::fixtures::tree_names(f);
                    let q = match (op / 256) % 5 {
                        0 => "nothing".to_string(),
                        _ if names.is_empty() => continue,
                        _ => names[(op / 512) as usize % names.len()].clone(),
                    };
                    if let Ok(Ok(t)) = guard(|| f.get_tree(&q)) {
                        trees.push(Rc::new(t));
                    } else {
                        cx.probe("get_tree refused");
                    }
                }
                5 | 6 if !trees.is_empty() => {
                    let t = &trees[arg as usize % trees.len()];
                    let n = t.branches_r().len();
                    if n == 0 {
                        continue;
                    }
                    let i = (op / 256) as usize % n;
                    let _ = guard(|| {
                        if let Some(Ok(mut h)) = crate::props::fixtures::held(t, i, op / 7) {
                            for _ in 0..(op / 512) % 500 {
                                if h.next().is_none() {
                                    break;
                                }
                            }
                        }
                    });
                }
                _ => {
                    if op & 64 == 0 && !handles.is_empty() {
                        let i = arg as usize % handles.len();
                        let f = handles.swap_remove(i);
                        let _ = guard(move || drop(f));
                    } else if !trees.is_empty() {
                        let i = arg as usize % trees.len();
                        let f = trees.swap_remove(i);
                        let _ = guard(move || drop(f));
                    }
                }
            }
        }
        let _ = guard(move || {
            drop(handles);
            drop(trees);
        });
        simos::set_phase(0);
        let m2 = simos::with(|s| s.mutations);
        let after = snap();
        if after != before {
            viol!("C14/changed", "reading changed the files: {before:?} became {after:?}");
        }
        if m2 != muts {
            viol!("C14/changed", "reading made {} changing calls", m2 - muts);
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one case performs a random sequence of open, list, get_tree, iterate and drop on complete, cut, foreign, missing files and directories under injected failures and compares every file and the count of changing calls; or writes a file over an old one of several kinds and compares with the file written afresh; non-trivial if a fault or short transfer occurred"
    }
}
impl C14 {
    fn over(&self, case: &J, cx: &mut Cx, cfg: &Config, specs: &[Spec]) -> Res<()> {
        let path = path_of(case);
        cx.boot(&Config { benign: Default::default(), ..cfg.clone() });
        path_of(case);
        must_write(&path, specs, "C14")?;
        let fresh = simos::get_file(&path).unwrap_or_default();
        cx.boot(cfg);
        path_of(case);
        let old = match case.u("old") {
            0 => garbage(7, fresh.len() as u64 * 2 + 100),
            1 => vec![0xff; fresh.len()],
            2 => fresh.clone(),
            3 => garbage(9, 10),
            4 => vec![0; fresh.len() + 100_000],
            5 => crate::props::fixtures::bytes("simple.root").to_vec(),
            _ => {
                let mut big: Vec<Spec> = specs.to_vec();
                big.push(Spec { name: "old".into(), cols: vec![Col { name: "o".into(), ty: "i64".into(), n: 9000, mode: 1, seed: 5 }] });
                must_write(&path, &big, "C14")?;
                simos::get_file(&path).unwrap_or_default()
            }
        };
        simos::put_file(&path, &old);
        if old.len() > fresh.len() {
            cx.probe("shorter than the file it replaces");
        }
        must_write(&path, specs, "C14")?;
        let got = simos::get_file(&path).unwrap_or_default();
        if got != fresh {
            let at = got.iter().zip(&fresh).take_while(|(a, b)| a == b).count();
            viol!("C14/leftover", "over an old file of {} bytes the result has {} bytes instead of {}, first difference at {at}", old.len(), got.len(), fresh.len());
        }
        must_read(&path, specs, 0, "C14")
    }
}

// ------------------------------------------------------------------ C17
pub struct C17;
impl Prop for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 5000, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 200_000, wall: 780, cpu: 60 },
        }
    }
    fn prepare(&self) {
        crate::props::fixtures::load();
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> J {
        let o = if idx % 8 == 7 { LARGE } else if idx % 8 > 4 { MEDIUM } else { SMALL };
        let mut trees: Vec<Spec> = (0..if r.below(3) == 0 { r.range(2, 4) } else { 1 }).map(|_| gen_spec(r, &o)).collect();
        if r.below(3) == 0 {
            // many kinds of branches: the largest list of descriptions
            for (i, t) in crate::item::TYPES.iter().enumerate() {
                if r.below(2) == 0 {
                    trees[0].cols.push(Col { name: format!("all{i}"), ty: t.0.into(), n: 3, mode: 0, seed: 1 });
                }
            }
        }
        let vars: Vec<J> = (0..r.range(2, 5))
            .map(|_| J::A(vec![J::I(r.below(1 << 30) as i64), J::I(r.below(8) as i64), J::I(r.below(1 << 30) as i64)]))
            .collect();
        J::obj()
            .set("trees", specs_j(&trees))
            .set("path", gen_path(r).as_str())
            .set("vars", J::A(vars))
            .set("io", gen_io(r))
            .set("rand_seed", r.seed())
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        let specs = specs_of(case);
        let path = path_of(case);
        cx.boot(&Config { benign: Default::default(), ..cfg.clone() });
        path_of(case);
        must_write(&path, &specs, "C17")?;
        let first = simos::get_file(&path).unwrap_or_default();
        for v in case.a("vars") {
            let J::A(v) = v else { continue };
            let (seed, kind, aux) = (v[0].as_i() as u64, v[1].as_i() as u64, v[2].as_i() as u64);
            let mut r = Rng::new(seed);
            let io = gen_io(&mut r);
            let mut c = cfg_of(&J::obj().set("io", io).set("rand_seed", r.seed()));
            c.clock_base = 1_000_000_000_000_000_000 + r.below(1 << 59);
            cx.boot(&c);
            path_of(case);
            let mut keep: Vec<Vec<u8>> = vec![];
            let what = match kind {
                0 => "other I/O, randomness and time",
                1 => {
                    for i in 0..r.range(1, 4) {
                        let s = gen_spec(&mut r, &MEDIUM);
                        must_write(&format!("/simfs/h{i}.root"), &[s.clone()], "C17")?;
                        must_read(&format!("/simfs/h{i}.root"), &[s], aux, "C17")?;
                    }
                    "after other sessions"
                }
                2 => {
                    let n = *r.pick(crate::props::fixtures::SMALL_FILES);
                    simos::put_file("/simfs/fix.root", crate::props::fixtures::bytes(n));
                    let f = must_open("/simfs/fix.root", "C17")?;
                    let mut f = f;
                    for n in crate::props::fixtures::tree_names(&f) {
                        let _ = guard(|| f.get_tree(&n).map(|t| t.branches_r().len()));
                    }
                    "after reading a ROOT file"
                }
                3 => {
                    // failed sessions before
                    let _ = guard(|| RootFile::open("/simfs/none").map(|_| ()));
                    if let Ok(Ok(mut f)) = guard(|| RootFile::create("/simfs/half.root")) {
                        let _ = write_into(&mut f, &[gen_spec(&mut r, &SMALL)]);
                    }
                    "after failed sessions"
                }
                4 => {
                    // another heap layout
                    for _ in 0..r.range(10, 500) {
                        keep.push(Vec::with_capacity(r.range(1, 5000) as usize));
                        if r.below(3) == 0 {
                            let i = r.below(keep.len() as u64) as usize;
                            keep.swap_remove(i);
                        }
                    }
                    "with another heap layout"
                }
                5 => {
                    // a second writer in between
                    let mut other = match guard(|| RootFile::create("/simfs/other.root")) {
                        Ok(Ok(f)) => f,
                        e => viol!("C17/write-failed", "create: {:?}", e.map(|r| r.err())),
                    };
                    let mut f = match guard(|| RootFile::create(&path)) {
                        Ok(Ok(f)) => f,
                        e => viol!("C17/write-failed", "create: {:?}", e.map(|r| r.err())),
                    };
                    for s in &specs {
                        let _ = write_into(&mut other, &[gen_spec(&mut r, &SMALL)]);
                        match write_into(&mut f, std::slice::from_ref(s)) {
                            WOut::Done => {}
                            o => viol!("C17/write-failed", "{o:?}"),
                        }
                    }
                    let _ = guard(|| other.close());
                    match guard(|| f.close()) {
                        Ok(Ok(())) => {}
                        e => viol!("C17/write-failed", "close: {e:?}"),
                    }
                    "with another writer at work"
                }
                6 => {
                    // all tree objects made first, in reverse order
                    let mut f = match guard(|| RootFile::create(&path)) {
                        Ok(Ok(f)) => f,
                        e => viol!("C17/write-failed", "create: {:?}", e.map(|r| r.err())),
                    };
                    let mut ts: Vec<_> = specs.iter().rev().map(new_tree).collect();
                    while let Some(mut t) = ts.pop() {
                        match guard(|| t.write(&mut f)) {
                            Ok(Ok(())) => {}
                            e => viol!("C17/write-failed", "write: {e:?}"),
                        }
                    }
                    match guard(|| f.close()) {
                        Ok(Ok(())) => {}
                        e => viol!("C17/write-failed", "close: {e:?}"),
                    }
                    "with trees made before the file"
                }
                _ => {
                    let (p, s) = (path.clone(), specs.clone());
                    let out = simos::run_threads(vec![
                        Box::new(move || write_file(&p, &s)) as Box<dyn FnOnce() -> WOut + Send>,
                        Box::new(move || write_file("/simfs/thr.root", &[gen_spec(&mut Rng::new(aux), &SMALL)])),
                    ]);
                    match &out[0] {
                        Ok(WOut::Done) => {}
                        e => viol!("C17/write-failed", "in a thread: {:?}", e.as_ref().ok()),
                    }
                    "in a thread beside another writer"
                }
            };
            if kind < 5 {
                must_write(&path, &specs, "C17")?;
            }
            cx.probe(what);
            let got = simos::get_file(&path).unwrap_or_default();
            if got != first {
                let at = got.iter().zip(&first).take_while(|(a, b)| a == b).count();
                return Err(Viol {
                    class: "C17/bytes".into(),
                    msg: format!("{what}: {} bytes instead of {}, first difference at {at}", got.len(), first.len()),
                    narrowed: Some(case.clone().set("vars", J::A(vec![J::A(v.clone())]))),
                });
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one case writes the same trees to the same path several times: plain, and under other I/O behaviour, hash seeds, wall clock, heap layout, after other (also failed) sessions, alternating with another writer, and in a thread beside another; the bytes must agree; non-trivial if calls were split or interrupted or threads switched"
    }
}

// ------------------------------------------------------------------ C19
pub struct C19;
impl Prop for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 6000, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 200_000, wall: 780, cpu: 60 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, t: Tier) -> J {
        let o = if idx % 8 == 7 { LARGE } else if idx % 8 > 4 { MEDIUM } else { SMALL };
        let mut trees: Vec<Spec> = (0..r.range(1, 2)).map(|_| gen_spec(r, &GenOpt { names: false, ..o })).collect();
        for (i, s) in trees.iter_mut().enumerate() {
            s.name = format!("t{i}");
        }
        J::obj()
            .set("trees", specs_j(&trees))
            .set("rel", r.below(3))
            .set("apis", r.below(3))
            .set("drop", J::B(r.below(2) == 0))
            .set("alike", J::B(r.below(3) != 0))
            .set("points", if t == Tier::Quick { 12u64 } else { 40 })
            .set("pseed", r.seed())
            .set("io", if r.below(2) == 0 { gen_io(r) } else { no_io() })
            .set("rand_seed", r.seed())
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        let specs = specs_of(case);
        // the other file: same shape and other values, or another shape
        let mut other = specs.clone();
        if case.b("alike") {
            for s in other.iter_mut() {
                for c in s.cols.iter_mut() {
                    c.seed ^= 0x5555;
                    c.mode = (c.mode & !7) | 1;
                }
            }
        } else {
            other = vec![Spec { name: "t0".into(), cols: vec![Col { name: "z".into(), ty: "u8".into(), n: 7, mode: 1, seed: 3 }] }];
        }
        let (dir, path, path2) = ("/simfs/d1", "/simfs/d1/f.root", "/simfs/d2/f.root");
        cx.boot(&cfg);
        simos::add_dir(dir);
        must_write(path, &specs, "C19")?;
        let img = simos::get_file(path).unwrap_or_default();
        must_write(path, &other, "C19")?;
        let img2 = simos::get_file(path).unwrap_or_default();
        let world = |cx: &mut Cx, faults: Vec<Fault>| {
            cx.boot(&Config { faults, ..cfg.clone() });
            simos::add_dir(dir);
            simos::add_dir("/simfs/d2");
            simos::put_file(path, &img);
            simos::put_file(path2, &img2);
            simos::with(|s| s.cwd = Some(dir.to_string()));
        };
        world(cx, vec![]);
        self.session(case, &specs, cx)?;
        let cen = census(&[2, 3, 4], &[Class::Any, Class::Read, Class::Seek]);
        let mut r = Rng::new(case.u("pseed"));
        let plans: Vec<Vec<Fault>> = match faults_of(case) {
            Some(f) => vec![f],
            None => points(&mut r, &cen, case.u("points") as usize)
                .into_iter()
                .map(|(phase, class, nth)| {
                    let ev = |r: &mut Rng| match r.below(6) {
                        0 => Kind::Unlink(path.into()),
                        1 => Kind::Rename(path.into(), "/simfs/gone.root".into()),
                        2 => Kind::Chdir("/simfs/d2".into()),
                        3 => Kind::Rename(path2.into(), path.into()),
                        _ => Kind::Replace(path.into(), path2.into()),
                    };
                    let mut v = vec![Fault { phase, class, nth, kind: ev(&mut r), persist: false }];
                    if r.below(3) == 0 {
                        let (p, c, n) = *r.pick(&cen);
                        v.push(Fault { phase: p, class: c, nth: 1 + r.below(n), kind: ev(&mut r), persist: false });
                    }
                    v
                })
                .collect(),
        };
        for faults in plans {
            world(cx, faults.clone());
            self.session(case, &specs, cx).map_err(|mut v| {
                v.narrowed = Some(with_faults(case, &faults));
                v.msg = format!("{} (event {})", v.msg, with_faults(case, &faults).get("faults"));
                v
            })?;
            // sessions that start afterwards see what is there then
            if simos::get_file(path).as_deref() == Some(&img2[..]) {
                cx.probe("the new file under the old path is read afterwards");
                must_read(path, &other, case.u("apis"), "C19")?;
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one case reads a file (absolute or relative path; two trees; interleaved iterators) and repeats it with its path deleted, renamed, replaced by another file of the same shape, or the working directory changed, right before selected calls after open; every value must stay the opened file's; non-trivial if an event or short transfer occurred"
    }
}
impl C19 {
    fn session(&self, case: &J, specs: &[Spec], cx: &mut Cx) -> Res<()> {
        let id = "C19";
        let p = match case.u("rel") {
            0 => "f.root",
            1 => "../d1/./f.root",
            _ => "/simfs/d1/f.root",
        };
        let apis = case.u("apis");
        simos::set_phase(1);
        let mut f = must_open(p, id)?;
        simos::set_phase(2);
        let mut trees = vec![];
        for s in specs {
            trees.push((must_fetch(&mut f, s, id)?, s));
        }
        if case.b("drop") {
            drop(f);
        }
        simos::set_phase(3);
        // all branches of all trees side by side
        let mut cur = vec![];
        for (t, s) in &trees {
            for (i, c) in s.cols.iter().enumerate() {
                match Cursor::new(t, i, c, api_of(apis + i as u64)) {
                    Ok(c) => cur.push(c),
                    Err(e) => viol!("C19/read-failed", "no iterator: {e}"),
                }
            }
        }
        while !cur.is_empty() {
            let mut left = vec![];
            for mut c in cur {
                let k = 1 + c.col.n / 5;
                match c.advance(k, id)? {
                    Adv::More => left.push(c),
                    Adv::End => {}
                    Adv::Loud(m) => viol!("C19/read-failed", "branch {:?} item {}: {m}", c.col.name, c.at()),
                }
            }
            cur = left;
        }
        simos::set_phase(4);
        // and once more from the start
        for (t, s) in &trees {
            for (i, (b, c)) in t.branches().zip(&s.cols).enumerate() {
                match read_col(b, c, api_of(apis + 1 + i as u64), id)? {
                    RStat::Complete => {}
                    RStat::Loud(at, m) => viol!("C19/read-failed", "branch {:?} item {at}: {m}", c.name),
                }
            }
        }
        simos::set_phase(0);
        cx.probe("sessions");
        Ok(())
    }
}
