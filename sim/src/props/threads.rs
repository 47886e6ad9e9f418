//! C09: sessions on different threads do not affect each other.
//!
//! Each simulated thread runs a session on files of its own and on shared
//! finished files. What it observes and what it leaves on the disk has to be
//! what the same session observes and leaves when it runs alone.
use super::fixtures;
use crate::engine::{cfg_of, gen_io, gen_sched, guard, no_io, Cx, Plan, Prop, Res, Tier, Viol};
use crate::json::J;
use crate::rng::{mix2, Rng};
use crate::simos::{self, Config, Sched};
use crate::world::*;
use crate::viol;
use oxyroot::RootFile;
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct C09;

const OPS: &[&str] = &[
    "write", "read-own", "read-shared", "fixture", "missing", "cut", "pipe", "nodir", "panic", "hold", "advance", "drop", "unreadable", "abandon",
];

/// one thread's session: what it observed, step by step
fn session(tid: usize, ops: &[Vec<u64>], specs: &[Spec], shared: &[Spec]) -> Res<Vec<String>> {
    let id = "C09";
    let mut log = vec![];
    let mut own: BTreeMap<u64, usize> = BTreeMap::new();
    let mut cur: Vec<Cursor> = vec![];
    let own_path = |k: u64| format!("/simfs/th{tid}_{k}.root");
    for v in ops {
        let (a, b, c) = (v[1], v[2], v[3]);
        let pick = |n: u64| &specs[(n % specs.len() as u64) as usize];
        match OPS.get(v[0] as usize).copied().unwrap_or("write") {
            "write" => {
                let k = a % 3;
                let s = (b % specs.len() as u64) as usize;
                let r = write_file(&own_path(k), &[specs[s].clone()]);
                if !r.ok() {
                    viol!("C09/write-failed", "thread {tid}: {r:?}");
                }
                own.insert(k, s);
                log.push("written".into());
            }
            "read-own" => {
                if let Some((k, s)) = own.iter().nth(a as usize % own.len().max(1)) {
                    must_read(&own_path(*k), &[specs[*s].clone()], c, id)?;
                    log.push("own read".into());
                }
            }
            "read-shared" => {
                must_read("/simfs/shared.root", shared, c, id)?;
                log.push("shared read".into());
            }
            "fixture" => {
                let name = fixtures::SMALL_FILES[a as usize % fixtures::SMALL_FILES.len()];
                let mut f = must_open(&format!("/simfs/{name}"), id)?;
                let want = fixtures::load().a(name);
                let Some(w) = want.get(b as usize % want.len().max(1)) else { continue };
                let t = match guard(|| f.get_tree(w.s("tree"))) {
                    Ok(Ok(t)) => Rc::new(t),
                    e => viol!("C09/tree-failed", "{name} {}: {:?}", w.s("tree"), e.map(|r| r.err())),
                };
                for (i, e) in w.a("branches").iter().enumerate() {
                    let r = guard(|| {
                        let Some(h) = fixtures::held(&t, i, c) else { return Ok(None) };
                        let mut h = h?;
                        let (mut n, mut d) = (0u64, 0u64);
                        while let Some(x) = h.next() {
                            simos::tick();
                            n += 1;
                            d = mix2(d, x);
                        }
                        Ok::<_, String>(Some((n, d)))
                    });
                    match r {
                        Ok(Ok(None)) => {}
                        Ok(Ok(Some((n, d)))) => {
                            if n != e.u("items") || format!("{d:x}") != e.s("digest") {
                                viol!("C09/wrong-data", "thread {tid}: {name} branch {} digest {d:x} of {n} items", e.s("name"));
                            }
                        }
                        Ok(Err(m)) | Err(m) => viol!("C09/read-failed", "thread {tid}: {name} branch {}: {m}", e.s("name")),
                    }
                }
                log.push(format!("{name} read"));
            }
            "missing" => match guard(|| RootFile::open("/simfs/nothing.root").map(|_| ())) {
                Ok(Err(e)) => log.push(format!("{e:?}")),
                e => viol!("C09/missing", "{e:?}"),
            },
            "cut" => {
                let r = try_read(&format!("/simfs/cut{}.root", a % 3), shared, c, id, false)?;
                log.push(format!("{r:?}"));
            }
            "unreadable" => {
                let r = try_read("/simfs/bad.root", shared, c, id, false)?;
                log.push(format!("{r:?}"));
            }
            "nodir" => match guard(|| RootFile::create("/simfs/no/such/dir.root").map(|_| ())) {
                Ok(Err(e)) => log.push(format!("{e:?}")),
                e => viol!("C09/missing", "{e:?}"),
            },
            "pipe" => {
                // reading the shared file in the middle of writing one's own
                let k = 5 + a % 2;
                let s = pick(b).clone();
                let mut f = match guard(|| RootFile::create(own_path(k))) {
                    Ok(Ok(f)) => f,
                    e => viol!("C09/write-failed", "create: {:?}", e.map(|r| r.err())),
                };
                must_read("/simfs/shared.root", shared, c, id)?;
                let r = write_into(&mut f, &[s.clone()]);
                if !r.ok() {
                    viol!("C09/write-failed", "thread {tid}: {r:?}");
                }
                must_read("/simfs/shared.root", shared, c + 1, id)?;
                match guard(|| f.close()) {
                    Ok(Ok(())) => {}
                    e => viol!("C09/write-failed", "close: {e:?}"),
                }
                must_read(&own_path(k), &[s], c, id)?;
                log.push("piped".into());
            }
            "panic" => {
                // a provider of this thread fails in the middle of writing
                let s = pick(b);
                let bomb = c % (s.entries() + 1);
                let mut f = match guard(|| RootFile::create(own_path(8))) {
                    Ok(Ok(f)) => f,
                    e => viol!("C09/write-failed", "create: {:?}", e.map(|r| r.err())),
                };
                let mut t = new_tree(s);
                let mut n = 0;
                t.new_branch("bomb", std::iter::from_fn(move || {
                    if n == bomb {
                        panic!("provider failed");
                    }
                    n += 1;
                    Some(n as i32)
                }));
                let r = guard(|| t.write(&mut f));
                log.push(match r {
                    Err(m) => m.split(" at ").next().unwrap_or("").to_string(),
                    Ok(r) => format!("{r:?}"),
                });
                let _ = guard(move || drop((t, f)));
            }
            "abandon" => {
                let mut f = match guard(|| RootFile::create(own_path(9))) {
                    Ok(Ok(f)) => f,
                    e => viol!("C09/write-failed", "create: {:?}", e.map(|r| r.err())),
                };
                log.push(format!("{:?}", write_into(&mut f, &[pick(b).clone()])));
            }
            "hold" => {
                let mut f = must_open("/simfs/shared.root", id)?;
                let s = &shared[a as usize % shared.len()];
                let t = must_fetch(&mut f, s, id)?;
                if s.cols.is_empty() {
                    continue;
                }
                let i = b as usize % s.cols.len();
                if cur.len() >= 4 {
                    cur.remove(0);
                }
                match guard(|| Cursor::new(&t, i, &s.cols[i], api_of(c))) {
                    Ok(Ok(c)) => cur.push(c),
                    e => viol!("C09/iter-failed", "{:?}", e.map(|r| r.err())),
                }
            }
            "advance" => {
                if cur.is_empty() {
                    continue;
                }
                let k = a as usize % cur.len();
                if let Adv::Loud(m) = cur[k].advance(b, id)? {
                    viol!("C09/read-failed", "thread {tid}: branch {:?} at {}: {m}", cur[k].col.name, cur[k].at());
                }
                log.push(format!("at {}", cur[k].at()));
            }
            _ => {
                if !cur.is_empty() {
                    cur.remove(a as usize % cur.len());
                }
            }
        }
    }
    while let Some(mut c) = cur.pop() {
        let n = c.col.n + 2;
        match c.advance(n, id)? {
            Adv::End => {}
            e => viol!("C09/read-failed", "thread {tid}: {e:?}"),
        }
    }
    Ok(log)
}

type Seen = Result<Vec<String>, Viol>;
fn files_now(tid: Option<usize>) -> BTreeMap<String, (u64, u64)> {
    simos::list_files()
        .into_iter()
        .filter(|p| match tid {
            None => true,
            Some(t) => p.starts_with(&format!("/simfs/th{t}_")),
        })
        .map(|p| {
            let v = (simos::file_len(&p).unwrap_or(0), simos::file_hash(&p).unwrap_or(0));
            (p, v)
        })
        .collect()
}

impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 6000, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 200_000, wall: 780, cpu: 60 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> J {
        let o = if idx % 8 == 7 { MEDIUM } else { SMALL };
        let named = |r: &mut Rng, o: &GenOpt| {
            let mut s = gen_spec(r, &GenOpt { names: false, ..*o });
            if r.below(4) == 0 {
                s.name = "t".into();
            }
            s
        };
        let mut shared: Vec<Spec> = (0..r.range(1, 2)).map(|_| named(r, &o)).collect();
        for (i, s) in shared.iter_mut().enumerate() {
            s.name = format!("s{i}");
        }
        // half of the cases: a few kinds of operations only, so that they meet
        let kinds: Vec<u64> = if r.below(2) == 0 {
            let a = r.below(OPS.len() as u64);
            let b = r.below(OPS.len() as u64);
            vec![a, a, b]
        } else {
            (0..OPS.len() as u64).collect()
        };
        let threads: Vec<J> = (0..r.range(2, 4))
            .map(|_| {
                let specs: Vec<Spec> = (0..r.range(1, 3)).map(|_| named(r, &o)).collect();
                let n = r.range(1, 8);
                let ops: Vec<J> = (0..n)
                    .map(|_| {
                        let k = *r.pick(&kinds);
                        J::A(vec![J::I(k as i64), J::I(r.below(100) as i64), J::I(r.below(100) as i64), J::I(r.below(10_000) as i64)])
                    })
                    .collect();
                J::obj().set("trees", specs_j(&specs)).set("ops", J::A(ops))
            })
            .collect();
        J::obj()
            .set("threads", J::A(threads))
            .set("trees", specs_j(&shared))
            .set("solo_last", J::B(r.below(2) == 0))
            .set("cut", gen_nums(r, 3, 1000))
            .set("bad", r.range(0, 1000))
            .set("io", if r.below(2) == 0 { no_io() } else { gen_io(r) })
            .set("sched", gen_sched(r))
            .set("rand_seed", r.seed())
    }
    fn prepare(&self) {
        fixtures::load();
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        let shared = specs_of(case);
        if shared.is_empty() {
            return Ok(());
        }
        let jobs: Vec<(Vec<Vec<u64>>, Vec<Spec>)> = case
            .a("threads")
            .iter()
            .map(|t| {
                let ops = t
                    .a("ops")
                    .iter()
                    .map(|o| o.as_a().iter().map(|x| x.as_i().max(0) as u64).collect::<Vec<u64>>())
                    .filter(|o| o.len() == 4)
                    .collect();
                (ops, specs_of(t))
            })
            .filter(|j: &(Vec<Vec<u64>>, Vec<Spec>)| !j.1.is_empty())
            .collect();
        let quiet = Config { sched: Sched::default(), benign: Default::default(), ..cfg.clone() };
        // images made by a process of its own would be no different: the shared files
        // are written while nothing else runs
        let cuts = nums(case, "cut");
        let setup = |cx: &mut Cx, c: &Config, img: &Option<Vec<u8>>| -> Res<Vec<u8>> {
            cx.boot(c);
            let img = match img {
                Some(i) => {
                    simos::put_file("/simfs/shared.root", i);
                    i.clone()
                }
                None => {
                    must_write("/simfs/shared.root", &shared, "C09")?;
                    simos::get_file("/simfs/shared.root").unwrap_or_default()
                }
            };
            for (i, k) in cuts.iter().enumerate() {
                simos::put_file(&format!("/simfs/cut{i}.root"), &img[..img.len() * (*k as usize % 1000) / 1000]);
            }
            simos::put_file("/simfs/bad.root", &img);
            simos::set_unreadable("/simfs/bad.root", true);
            for n in fixtures::SMALL_FILES {
                simos::put_file(&format!("/simfs/{n}"), fixtures::bytes(n));
            }
            Ok(img)
        };
        let solo_last = case.b("solo_last");
        // first uses of the library may then happen in the threads
        let img: Option<Vec<u8>> = if solo_last { None } else { Some(setup(cx, &quiet, &None)?) };
        let solo = |cx: &mut Cx, img: &Option<Vec<u8>>| -> Res<Vec<(Seen, BTreeMap<String, (u64, u64)>)>> {
            let mut out = vec![];
            for (t, (ops, specs)) in jobs.iter().enumerate() {
                setup(cx, &quiet, img)?;
                let r = session(t, ops, specs, &shared);
                let left = simos::open_fds();
                if left != 0 {
                    viol!("C09/leak", "{left} descriptors open after a session");
                }
                out.push((r, files_now(Some(t))));
            }
            Ok(out)
        };
        let mut before = None;
        if !solo_last {
            before = Some(solo(cx, &img)?);
        }
        setup(cx, &cfg, &img)?;
        let base = files_now(None);
        let out = simos::run_threads(
            jobs.iter()
                .cloned()
                .enumerate()
                .map(|(t, (ops, specs))| {
                    let shared = shared.clone();
                    Box::new(move || session(t, &ops, &specs, &shared)) as Box<dyn FnOnce() -> Seen + Send>
                })
                .collect(),
        );
        let st = simos::stats();
        cx.probe_n("thread switches", st.switches);
        let left = simos::open_fds();
        let all = files_now(None);
        let mut got: Vec<Seen> = vec![];
        for (t, o) in out.into_iter().enumerate() {
            match o {
                Ok(r) => got.push(r),
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    if m.starts_with("harness") {
                        panic!("{m}");
                    }
                    viol!("C09/panic", "thread {t} died: {m}");
                }
            }
        }
        // each thread's own verdict
        for (t, g) in got.iter().enumerate() {
            if let Err(v) = g {
                // alone as well? then it is not a matter of threads, but still wrong
                return Err(Viol { class: v.class.clone(), msg: format!("thread {t} beside {} others: {}", jobs.len() - 1, v.msg), narrowed: None });
            }
        }
        if left != 0 {
            viol!("C09/leak", "{left} descriptors open after all sessions");
        }
        let alone = match before {
            Some(b) => b,
            None => {
                let img = simos::get_file("/simfs/shared.root");
                // the switches of the interleaved run belong in the replay file
                let log = simos::with(|s| (s.benign_log.clone(), s.switch_log.clone()));
                let b = solo(cx, &img)?;
                simos::with(|s| (s.benign_log, s.switch_log) = log);
                b
            }
        };
        let mut want = base;
        for (t, (r, files)) in alone.iter().enumerate() {
            match (r, &got[t]) {
                (Ok(a), Ok(b)) if a == b => {}
                (Ok(a), Ok(b)) => {
                    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
                    viol!("C09/observed", "thread {t}, observation {i}: alone {:?}, beside others {:?}", a.get(i), b.get(i))
                }
                (Err(v), _) => return Err(v.clone()),
                _ => {}
            }
            want.extend(files.clone());
        }
        if want != all {
            let d: Vec<&String> = want.iter().filter(|(k, v)| all.get(*k) != Some(v)).map(|x| x.0).chain(all.keys().filter(|k| !want.contains_key(*k))).collect();
            viol!("C09/files", "files differ from what the sessions leave when they run alone: {d:?}");
        }
        for (ops, _) in &jobs {
            for o in ops {
                cx.probe(OPS.get(o[0] as usize).copied().unwrap_or("write"));
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one case runs 2 to 4 sessions of up to 8 operations as simulated threads, switched at calls, at futexes and (at a seeded rate) at allocations, items taken and items delivered, and compares observations and files with the same sessions run alone before or after; non-trivial if threads switched"
    }
}
