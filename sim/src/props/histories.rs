//! C08: iterators, trees and file handles are independent of each other.
//!
//! A case is a history of operations on a growing and shrinking population of
//! handles, trees and iterators. Every item delivered is compared with the
//! model of its own branch, whatever happened in between.
use super::fixtures::{self, Held};
use crate::engine::{cfg_of, gen_io, guard, no_io, Cx, Plan, Prop, Res, Tier};
use crate::item::Item;
use crate::json::J;
use crate::rng::{mix2, Rng};
use crate::simos::{self, Class, Config, Fault, Kind};
use crate::world::*;
use crate::{viol, with_type};
use oxyroot::{ReaderTree, RootFile};
use std::rc::Rc;

pub struct C08;

const OPS: &[&str] = &[
    "open", "tree", "iter", "advance", "drop-iter", "drop-file", "drop-tree", "write", "keys", "missing-tree", "drain", "wrong-type", "user-panic",
    "disk-error", "two-steps", "fx-open", "fx-iter", "fx-advance", "peek", "missing-file",
];

struct Live {
    file: usize,
    f: RootFile,
}
struct LiveTree {
    file: usize,
    tree: usize,
    t: Rc<ReaderTree>,
}
struct FxIter {
    key: String,
    h: Held,
    at: u64,
    dig: u64,
}

fn panicking_reader(t: &ReaderTree, idx: usize, col: &Col, at: u64) {
    let bs = t.branches_r();
    with_type!(col.ty.as_str(), T => {
        let mut k = 0;
        let it = bs[idx].get_basket(|r| {
            if k == at {
                panic!("user code failed");
            }
            k += 1;
            <T as Item>::read_raw(r)
        });
        for _ in it {}
    })
}

impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 12000, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 400_000, wall: 780, cpu: 60 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> J {
        let o = if idx % 6 == 5 { MEDIUM } else { SMALL };
        let nfiles = r.range(1, 3);
        let files: Vec<J> = (0..nfiles)
            .map(|_| {
                let n = r.range(1, 3);
                let mut v = vec![];
                for i in 0..n {
                    let mut s = gen_spec(r, &o);
                    if s.cols.is_empty() {
                        s.cols.push(gen_col(r, &o, 0));
                    }
                    s.name = format!("t{i}");
                    v.push(s);
                }
                J::obj().set("trees", specs_j(&v))
            })
            .collect();
        // swarm: each history uses its own mix of operations
        let w: Vec<u64> = OPS
            .iter()
            .map(|o| match *o {
                "advance" => 12,
                "iter" => 6,
                "tree" => 3,
                "open" => 2,
                "two-steps" => 6,
                "fx-advance" => 6,
                _ => [0, 0, 1, 2, 4][r.below(5) as usize],
            })
            .collect();
        let total: u64 = w.iter().sum();
        let n = *r.pick(&[10u64, 30, 60, 120, 250]);
        let ops: Vec<J> = (0..n)
            .map(|_| {
                let mut k = r.below(total);
                let mut op = 0;
                for (i, x) in w.iter().enumerate() {
                    if k < *x {
                        op = i;
                        break;
                    }
                    k -= x;
                }
                J::A(vec![J::I(op as i64), J::I(r.below(1000) as i64), J::I(r.below(1000) as i64), J::I(r.below(100_000) as i64)])
            })
            .collect();
        J::obj()
            .set("files", J::A(files))
            .set("ops", J::A(ops))
            .set("io", if r.below(3) == 0 { no_io() } else { gen_io(r) })
            .set("rand_seed", r.seed())
    }
    fn prepare(&self) {
        fixtures::load();
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let id = "C08";
        let cfg = cfg_of(case);
        cx.boot(&cfg);
        let mut files: Vec<Vec<Spec>> = case.a("files").iter().map(specs_of).collect();
        for (i, s) in files.iter_mut().enumerate() {
            s.retain(|s| !s.cols.is_empty());
            must_write(&format!("/simfs/f{i}.root"), s, id)?;
        }
        files.retain(|s| !s.is_empty());
        if files.is_empty() {
            return Ok(());
        }
        for (i, s) in files.iter().enumerate() {
            must_write(&format!("/simfs/f{i}.root"), s, id)?;
        }
        let mut open: Vec<Live> = vec![];
        let mut trees: Vec<LiveTree> = vec![];
        let mut cur: Vec<Cursor> = vec![];
        let mut fxt: Vec<(String, Rc<ReaderTree>)> = vec![];
        let mut fxi: Vec<FxIter> = vec![];
        let mut written = 0u64;
        let (mut live_max, mut cross) = (0usize, 0u64);
        let mut last: Option<usize> = None;
        for op in case.a("ops") {
            let v: Vec<u64> = op.as_a().iter().map(|x| x.as_i().max(0) as u64).collect();
            if v.len() != 4 {
                continue;
            }
            let (a, b, c) = (v[1] as usize, v[2] as usize, v[3]);
            simos::with(|s| s.note(&format!("op {op}")));
            match OPS.get(v[0] as usize).copied().unwrap_or("advance") {
                "open" => {
                    if open.len() < 12 {
                        let k = a % files.len();
                        open.push(Live { file: k, f: must_open(&format!("/simfs/f{k}.root"), id)? });
                    }
                }
                "tree" => {
                    if open.is_empty() {
                        continue;
                    }
                    let k = a % open.len();
                    let file = open[k].file;
                    let tr = b % files[file].len();
                    let t = must_fetch(&mut open[k].f, &files[file][tr], id)?;
                    if trees.len() >= 12 {
                        trees.remove(c as usize % trees.len());
                    }
                    trees.push(LiveTree { file, tree: tr, t });
                }
                "iter" => {
                    if trees.is_empty() {
                        continue;
                    }
                    let k = a % trees.len();
                    let s = &files[trees[k].file][trees[k].tree];
                    let i = b % s.cols.len();
                    if cur.len() >= 24 {
                        cur.remove(c as usize % cur.len());
                    }
                    match guard(|| Cursor::new(&trees[k].t, i, &s.cols[i], api_of(c))) {
                        Ok(Ok(c)) => cur.push(c),
                        e => viol!("C08/iter-failed", "no iterator over {:?}: {:?}", s.cols[i].name, e.map(|r| r.err())),
                    }
                    last = None;
                }
                "advance" => {
                    if cur.is_empty() {
                        continue;
                    }
                    let k = a % cur.len();
                    if last.is_some() && last != Some(k) {
                        cross += 1;
                    }
                    last = Some(k);
                    let n = if b % 3 == 0 { 1 } else if b % 3 == 1 { c % 50 } else { c % 3000 };
                    if let Adv::Loud(m) = cur[k].advance(n, id)? {
                        viol!("C08/read-failed", "branch {:?} at {}: {m}", cur[k].col.name, cur[k].at());
                    }
                }
                "two-steps" => {
                    // two iterators item by item
                    if cur.len() < 2 {
                        continue;
                    }
                    let (x, y) = (a % cur.len(), b % cur.len());
                    cross += 1;
                    for _ in 0..(1 + c % 40) {
                        for k in [x, y] {
                            if let Adv::Loud(m) = cur[k].advance(1, id)? {
                                viol!("C08/read-failed", "branch {:?} at {}: {m}", cur[k].col.name, cur[k].at());
                            }
                        }
                    }
                }
                "drain" => {
                    if cur.is_empty() {
                        continue;
                    }
                    let k = a % cur.len();
                    let n = cur[k].col.n + 5;
                    match cur[k].advance(n, id)? {
                        Adv::End => {}
                        e => viol!("C08/read-failed", "branch {:?} at {}: {e:?}", cur[k].col.name, cur[k].at()),
                    }
                }
                "drop-iter" => {
                    if !cur.is_empty() {
                        let k = a % cur.len();
                        let x = cur.remove(k);
                        last = None;
                        if let Err(m) = guard(move || drop(x)) {
                            viol!("C08/panic", "dropping an iterator panicked: {m}");
                        }
                    }
                }
                "drop-file" => {
                    if !open.is_empty() {
                        let k = a % open.len();
                        drop(open.remove(k));
                        cx.probe("handle dropped before its trees and iterators");
                    }
                }
                "drop-tree" => {
                    if !trees.is_empty() {
                        let k = a % trees.len();
                        drop(trees.remove(k));
                    }
                }
                "write" => {
                    // another file, written and closed or left alone while the rest goes on
                    let s = vec![Spec { name: "w".into(), cols: vec![Col { name: "c".into(), ty: "Vec<i32>".into(), n: c % 300, mode: 7 * 8, seed: c }] }];
                    let p = format!("/simfs/w{}.root", written % 3);
                    written += 1;
                    if b % 3 == 0 {
                        let mut f = match guard(|| RootFile::create(&p)) {
                            Ok(Ok(f)) => f,
                            e => viol!("C08/write-failed", "create: {:?}", e.map(|r| r.err())),
                        };
                        if write_into(&mut f, &s) != WOut::Done {
                            viol!("C08/write-failed", "write");
                        }
                        drop(f);
                    } else {
                        must_write(&p, &s, id)?;
                        must_read(&p, &s, c, id)?;
                    }
                }
                "keys" => {
                    if open.is_empty() {
                        continue;
                    }
                    let k = a % open.len();
                    let keys: Vec<String> = open[k].f.keys_name().map(|s| s.to_string()).collect();
                    let want: Vec<String> = files[open[k].file].iter().map(|s| s.name.clone()).collect();
                    if keys != want {
                        viol!("C08/keys", "{keys:?} instead of {want:?}");
                    }
                }
                "missing-tree" => {
                    if open.is_empty() {
                        continue;
                    }
                    let k = a % open.len();
                    match guard(|| open[k].f.get_tree("no such tree").map(|_| ())) {
                        Ok(Err(_)) => {}
                        e => viol!("C08/missing", "fetching a tree that does not exist: {e:?}"),
                    }
                }
                "missing-file" => match guard(|| RootFile::open("/simfs/nothing.root").map(|_| ())) {
                    Ok(Err(_)) => {}
                    e => viol!("C08/missing", "opening a file that does not exist: {e:?}"),
                },
                "wrong-type" => {
                    if trees.is_empty() {
                        continue;
                    }
                    let k = a % trees.len();
                    let s = &files[trees[k].file][trees[k].tree];
                    let i = b % s.cols.len();
                    // refused, or an iterator that is never advanced
                    let t = trees[k].t.clone();
                    let _ = guard(|| t.branches_r()[i].as_iter::<Vec<f64>>().is_ok());
                }
                "user-panic" => {
                    if trees.is_empty() {
                        continue;
                    }
                    let k = a % trees.len();
                    let s = &files[trees[k].file][trees[k].tree];
                    let i = b % s.cols.len();
                    let col = &s.cols[i];
                    let t = trees[k].t.clone();
                    let _ = guard(|| panicking_reader(&t, i, col, c % (col.n + 1)));
                    cx.probe("user code panicked inside an iterator");
                }
                "disk-error" => {
                    // one iterator meets a disk error; the others do not notice
                    if trees.is_empty() {
                        continue;
                    }
                    let k = a % trees.len();
                    let s = &files[trees[k].file][trees[k].tree];
                    let i = b % s.cols.len();
                    let class = if c % 3 == 0 { Class::Seek } else { Class::Read };
                    let kind = if c % 5 == 0 && class == Class::Read { Kind::Zero } else { Kind::Errno(libc::EIO) };
                    simos::with(|m| {
                        m.apply(&Config { faults: vec![Fault { phase: 9, class, nth: 1 + (c / 15) % 4, kind, persist: c % 2 == 0 }], ..cfg.clone() });
                    });
                    simos::set_phase(9);
                    let r = read_col(trees[k].t.branches_r()[i], &s.cols[i], api_of(c), id);
                    simos::set_phase(0);
                    simos::with(|m| m.apply(&cfg));
                    if let RStat::Loud(..) = r? {
                        cx.probe("an iterator failed between the others");
                    }
                }
                "fx-open" => {
                    if fxt.len() >= 3 {
                        fxt.remove(c as usize % 3);
                    }
                    let name = fixtures::SMALL_FILES[a % fixtures::SMALL_FILES.len()];
                    let p = format!("/simfs/{name}");
                    if simos::file_len(&p).is_none() {
                        simos::put_file(&p, fixtures::bytes(name));
                    }
                    let mut f = must_open(&p, id)?;
                    let want = fixtures::load().a(name);
                    if want.is_empty() {
                        continue;
                    }
                    let w = &want[b % want.len()];
                    match guard(|| f.get_tree(w.s("tree"))) {
                        Ok(Ok(t)) => fxt.push((format!("{name}/{}", b % want.len()), Rc::new(t))),
                        e => viol!("C08/tree-failed", "{name} {}: {:?}", w.s("tree"), e.map(|r| r.err())),
                    }
                }
                "fx-iter" => {
                    if fxt.is_empty() {
                        continue;
                    }
                    let (key, t) = &fxt[a % fxt.len()];
                    let n = t.branches_r().len();
                    if n == 0 {
                        continue;
                    }
                    let i = b % n;
                    if fxi.len() >= 8 {
                        fxi.remove(c as usize % fxi.len());
                    }
                    match guard(|| fixtures::held(t, i, c)) {
                        Ok(None) => {}
                        Ok(Some(Ok(h))) => fxi.push(FxIter { key: format!("{key}/{i}"), h, at: 0, dig: 0 }),
                        Ok(Some(Err(m))) | Err(m) => viol!("C08/iter-failed", "{key} branch {i}: {m}"),
                    }
                }
                "fx-advance" => {
                    if fxi.is_empty() {
                        continue;
                    }
                    let k = a % fxi.len();
                    let n = 1 + c % 200;
                    let x = &mut fxi[k];
                    let r = guard(|| {
                        for _ in 0..n {
                            match x.h.next() {
                                None => return true,
                                Some(d) => {
                                    x.dig = mix2(x.dig, d);
                                    x.at += 1;
                                }
                            }
                        }
                        false
                    });
                    match r {
                        Err(m) => viol!("C08/read-failed", "{}: {m}", x.key),
                        Ok(false) => {}
                        Ok(true) => {
                            let x = fxi.remove(k);
                            fx_check(&x)?;
                            cx.probe("a file of another program read to its end in between");
                        }
                    }
                }
                _ => {
                    // metadata asked again and again
                    if let Some(t) = trees.get(a % trees.len().max(1)) {
                        check_shape(&t.t, &files[t.file][t.tree], id)?;
                    }
                }
            }
            live_max = live_max.max(cur.len());
        }
        simos::with(|s| s.note("end of the history"));
        drop(open);
        drop(trees);
        // whatever is left goes on to its end
        while !cur.is_empty() {
            let mut c = cur.remove(cur.len() / 2);
            let n = c.col.n + 5;
            match c.advance(n, id)? {
                Adv::End => {}
                e => viol!("C08/read-failed", "branch {:?} at {}: {e:?}", c.col.name, c.at()),
            }
        }
        for mut x in fxi {
            let r = guard(|| {
                while let Some(d) = x.h.next() {
                    x.dig = mix2(x.dig, d);
                    x.at += 1;
                }
            });
            if let Err(m) = r {
                viol!("C08/read-failed", "{}: {m}", x.key);
            }
            fx_check(&x)?;
        }
        drop(fxt);
        // and reading everything again gives the same
        for (i, s) in files.iter().enumerate() {
            must_read(&format!("/simfs/f{i}.root"), s, i as u64, id)?;
        }
        if live_max > 5 {
            cx.probe("over 5 iterators alive");
        }
        cx.probe_n("switches between iterators", cross);
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one case is a history of up to 250 operations on several files: open, fetch, make iterators, advance them in any order, drop anything, write other files, ask for missing things, iterators that panic in user code or meet a disk error; every item is compared with its branch's model; non-trivial if an interruption, short transfer or fault occurred"
    }
}

/// a finished iteration over a fixture against what was recorded
fn fx_check(x: &FxIter) -> Res<()> {
    let p: Vec<&str> = x.key.split('/').collect();
    let t = &fixtures::load().a(p[0])[p[1].parse::<usize>().unwrap()];
    let b = &t.a("branches")[p[2].parse::<usize>().unwrap()];
    if b.u("items") != x.at || b.s("digest") != format!("{:x}", x.dig) {
        viol!("C08/wrong-data", "{} branch {}: {} items with digest {:x} instead of {} with {}", x.key, b.s("name"), x.at, x.dig, b.u("items"), b.s("digest"));
    }
    Ok(())
}
