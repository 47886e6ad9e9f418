//! C20: a branch is only readable as a matching type.
use crate::engine::{cfg_of, gen_io, guard, no_io, Cx, Plan, Prop, Res, Tier};
use crate::faults::*;
use crate::item::TYPES;
use crate::json::J;
use crate::props::fixtures;
use crate::rng::{mix2, Rng};
use crate::simos::{self, Class, Fault};
use crate::viol;
use crate::world::*;
use oxyroot::{Branch, ReadFromTree, ReaderTree, RootFile, Slice};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub struct C20;

/// types that can be asked for beside those that can be written
const MORE: &[&str] = &[
    "Slice<i8>", "Slice<u8>", "Slice<i16>", "Slice<u16>", "Slice<i32>", "Slice<u32>", "Slice<i64>", "Slice<u64>", "Slice<f32>", "Slice<f64>", "Slice<bool>",
    "Vec<bool>", "Vec<String>", "Vec<Vec<i32>>", "Vec<Vec<String>>", "Vec<HashSet<i32>>", "Vec<HashSet<String>>", "HashSet<i32>", "HashSet<u32>", "HashSet<String>",
    "HashMap<i32,i16>", "HashMap<i32,u16>", "HashMap<i32,Vec<i16>>", "HashMap<i32,String>", "HashMap<String,i16>", "HashMap<String,String>", "HashMap<i32,HashSet<String>>",
    "HashMap<String,Vec<String>>", "[i32;4]", "[f32;3]", "[f32;10]", "[f64;2]", "[u8;31]", "[i32;30]", "[i32;10]", "[bool;5]", "[i8;3]", "[i8;10]",
];
macro_rules! with_ask {
    ($name:expr, $T:ident => $e:expr) => {{
        macro_rules! arm { ($t:ty) => {{ type $T = $t; $e }}; }
        match $name {
            "Slice<i8>" => arm!(Slice<i8>),
            "Slice<u8>" => arm!(Slice<u8>),
            "Slice<i16>" => arm!(Slice<i16>),
            "Slice<u16>" => arm!(Slice<u16>),
            "Slice<i32>" => arm!(Slice<i32>),
            "Slice<u32>" => arm!(Slice<u32>),
            "Slice<i64>" => arm!(Slice<i64>),
            "Slice<u64>" => arm!(Slice<u64>),
            "Slice<f32>" => arm!(Slice<f32>),
            "Slice<f64>" => arm!(Slice<f64>),
            "Slice<bool>" => arm!(Slice<bool>),
            "Vec<bool>" => arm!(Vec<bool>),
            "Vec<String>" => arm!(Vec<String>),
            "Vec<Vec<i32>>" => arm!(Vec<Vec<i32>>),
            "Vec<Vec<String>>" => arm!(Vec<Vec<String>>),
            "Vec<HashSet<i32>>" => arm!(Vec<HashSet<i32>>),
            "Vec<HashSet<String>>" => arm!(Vec<HashSet<String>>),
            "HashSet<i32>" => arm!(HashSet<i32>),
            "HashSet<u32>" => arm!(HashSet<u32>),
            "HashSet<String>" => arm!(HashSet<String>),
            "HashMap<i32,i16>" => arm!(HashMap<i32, i16>),
            "HashMap<i32,u16>" => arm!(HashMap<i32, u16>),
            "HashMap<i32,Vec<i16>>" => arm!(HashMap<i32, Vec<i16>>),
            "HashMap<i32,String>" => arm!(HashMap<i32, String>),
            "HashMap<String,i16>" => arm!(HashMap<String, i16>),
            "HashMap<String,String>" => arm!(HashMap<String, String>),
            "HashMap<i32,HashSet<String>>" => arm!(HashMap<i32, HashSet<String>>),
            "HashMap<String,Vec<String>>" => arm!(HashMap<String, Vec<String>>),
            "[i32;4]" => arm!([i32; 4]),
            "[f32;3]" => arm!([f32; 3]),
            "[f32;10]" => arm!([f32; 10]),
            "[f64;2]" => arm!([f64; 2]),
            "[u8;31]" => arm!([u8; 31]),
            "[i32;30]" => arm!([i32; 30]),
            "[i32;10]" => arm!([i32; 10]),
            "[bool;5]" => arm!([bool; 5]),
            "[i8;3]" => arm!([i8; 3]),
            "[i8;10]" => arm!([i8; 10]),
            other => crate::with_type!(other, $T => $e),
        }
    }};
}

/// names under which ROOT knows a type
fn cpp(t: &str) -> Vec<String> {
    let wrap = |inner: &str, a: &str, b: &str| cpp(inner).into_iter().map(|x| format!("{a}{x}{b}")).collect::<Vec<_>>();
    let inside = |p: &str| t.strip_prefix(p).and_then(|x| x.strip_suffix('>')).map(|x| x.to_string());
    if let Some(x) = inside("Vec<") {
        return wrap(&x, "vector<", ">");
    }
    if let Some(x) = inside("Slice<") {
        return wrap(&x, "", "[]");
    }
    if let Some(x) = inside("HashSet<") {
        return wrap(&x, "set<", ">");
    }
    if let Some(x) = inside("HashMap<") {
        // keys are plain in all types asked for
        if let Some((k, v)) = x.split_once(',') {
            return cpp(k).iter().flat_map(|k| wrap(v, &format!("map<{k},"), ">")).collect();
        }
    }
    if let Some((x, n)) = t.strip_prefix('[').and_then(|x| x.strip_suffix(']')).and_then(|x| x.split_once(';')) {
        return wrap(x, "", &format!("[{n}]"));
    }
    let one = match t {
        "String" => return ["string", "TString", "char*"].map(String::from).to_vec(),
        "f32" => "float",
        "f64" => "double",
        "bool" => "bool",
        i => return vec![format!("{}int{}_t", if i.starts_with('u') { "u" } else { "" }, &i[1..])],
    };
    vec![one.to_string()]
}

enum Answer {
    /// the text of the error
    Refused(String),
    /// what was delivered first
    Accepted(String),
    Panicked(String),
}
fn ask(b: &Branch, t: &str) -> Answer {
    let r = guard(|| {
        with_ask!(t, T => match b.as_iter::<T>() {
            Err(e) => Err(format!("{e}\n{e:?}")),
            Ok(mut it) => Ok(match guard(move || it.next()) {
                Ok(v) => format!("{v:?}").chars().take(80).collect::<String>(),
                Err(m) => format!("a panic: {m}"),
            }),
        })
    });
    match r {
        Ok(Ok(v)) => Answer::Accepted(v),
        Ok(Err(e)) => Answer::Refused(e),
        Err(m) => Answer::Panicked(m),
    }
}
fn refuse(b: &Branch, stored: &str, t: &str, when: &str) -> Res<()> {
    let (calls, fds) = (simos::count(3, Class::Any), simos::open_fds());
    simos::set_phase(3);
    let a = ask(b, t);
    simos::set_phase(4);
    match a {
        Answer::Accepted(v) => viol!("C20/accepted", "branch {:?} of {stored} can be read as {t}{when}: {v}", b.name()),
        Answer::Panicked(m) => viol!("C20/panic", "asking branch {:?} of {stored} for {t}{when} panicked: {m}", b.name()),
        Answer::Refused(e) => {
            let has = b.item_type_name();
            if !e.contains(&has) || !cpp(t).iter().any(|n| e.contains(n.as_str())) {
                viol!("C20/error", "asking branch {:?} of {stored} ({has}) for {t}{when}: the error does not name both types: {e}", b.name());
            }
        }
    }
    let after = (simos::count(3, Class::Any), simos::open_fds());
    if after != (calls, fds) {
        viol!("C20/side-effect", "refusing {t} for branch {:?} of {stored}{when} made {} I/O calls and changed descriptors from {fds} to {}", b.name(), after.0 - calls, after.1);
    }
    Ok(())
}

// structs whose field does not suit
#[derive(ReadFromTree, Debug)]
struct AsI32 {
    #[allow(dead_code)]
    c: i32,
}
#[derive(ReadFromTree, Debug)]
struct AsText {
    #[allow(dead_code)]
    c: String,
}
#[derive(ReadFromTree, Debug)]
struct AsList {
    #[allow(dead_code)]
    c: Vec<f64>,
}
#[derive(ReadFromTree, Debug)]
struct AsArray {
    #[allow(dead_code)]
    c: [u8; 32],
}
fn ask_struct(t: &ReaderTree, k: u64) -> (&'static str, Result<Result<Option<String>, String>, String>) {
    macro_rules! one {
        ($n:literal, $t:ty) => {
            ($n, guard(|| <$t>::from_tree(t).map(|mut it| it.next().map(|v| format!("{v:?}"))).map_err(|e| format!("{e:?}"))))
        };
    }
    match k % 4 {
        0 => one!("i32", AsI32),
        1 => one!("String", AsText),
        2 => one!("Vec<f64>", AsList),
        _ => one!("[u8;32]", AsArray),
    }
}

impl Prop for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn prepare(&self) {
        fixtures::load();
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 12_000, wall: 120, cpu: 60 },
            Tier::Thorough => Plan { cases: 600_000, wall: 780, cpu: 60 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, _tier: Tier) -> J {
        let o = GenOpt { col_bytes: 40_000, max_cols: 5, names: false, ragged: true, huge: false };
        let mut specs = vec![gen_spec(r, &o)];
        let derived = idx % 8 == 3;
        if derived {
            // one branch with the name of the fields
            let mut c = gen_col(r, &o, 0);
            c.name = "c".into();
            specs[0] = Spec { name: "t".into(), cols: vec![c] };
        } else if specs[0].cols.is_empty() {
            specs[0].cols.push(gen_col(r, &o, 0));
        }
        // a tree with branches of the same names and other types
        if r.below(2) == 0 {
            let mut twin = specs[0].clone();
            twin.name = format!("{}w", twin.name);
            for c in &mut twin.cols {
                let mut d = gen_col(r, &o, 0);
                d.name = c.name.clone();
                *c = d;
            }
            specs.push(twin);
        }
        let mut j = J::obj().set("trees", specs_j(&specs)).set("derived", J::B(derived));
        if idx % 4 == 1 {
            j = j.set("fixture", *r.pick(fixtures::SMALL_FILES));
        }
        j.set("steps", gen_nums(r, 40, 1 << 30))
            .set("fail", if r.below(3) == 0 { 1 + r.below(8) } else { 0 })
            .set("pseed", r.seed())
            .set("io", if r.below(3) == 0 { no_io() } else { gen_io(r) })
            .set("rand_seed", r.seed())
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let mut cfg = cfg_of(case);
        let specs = specs_of(case);
        if specs.is_empty() {
            return Ok(());
        }
        if case.u("fail") > 0 {
            let mut r = Rng::new(case.u("pseed"));
            let class = *r.pick(&[Class::Read, Class::Seek]);
            cfg.faults = vec![Fault { phase: 4, class, nth: case.u("fail"), kind: error_kind(&mut r, class), persist: r.below(2) == 0 }];
        }
        cx.boot(&cfg);
        let path = "/simfs/f.root";
        must_write(path, &specs, "C20")?;
        let mut f = must_open(path, "C20")?;
        let mut trees = vec![];
        for spec in &specs {
            trees.push((spec, must_fetch(&mut f, spec, "C20")?));
        }
        // a file of another program in between
        let fixture = case.s("fixture");
        let mut foreign: Vec<(Rc<ReaderTree>, J)> = vec![];
        if !fixture.is_empty() {
            simos::put_file("/simfs/other.root", fixtures::bytes(fixture));
            let mut g = must_open("/simfs/other.root", "C20")?;
            for rec in fixtures::load().a(fixture) {
                match guard(|| g.get_tree(rec.s("tree"))) {
                    Ok(Ok(t)) => foreign.push((Rc::new(t), rec.clone())),
                    e => viol!("C20/tree-failed", "get_tree({:?}) of {fixture}: {:?}", rec.s("tree"), e.map(|r| r.err())),
                }
            }
        }
        let asked: Vec<&str> = TYPES.iter().map(|t| t.0).chain(MORE.iter().copied()).collect();
        let mut alive: Vec<Cursor> = vec![];
        let mut loud = false;
        simos::set_phase(4);
        for x in nums(case, "steps") {
            let pick = (x / 16) as usize;
            let (spec, tree) = &trees[(x >> 29) as usize % trees.len()];
            let bs: Vec<&Branch> = tree.branches().collect();
            let when = if loud { " after an iterator failed" } else { "" };
            match x % 16 {
                // the matching type
                0..=2 if !spec.cols.is_empty() => {
                    let i = pick % spec.cols.len();
                    // creating it must succeed whatever the disk does
                    match guard(|| Cursor::new(tree, i, &spec.cols[i], Api::Iter)) {
                        Ok(Ok(c)) => alive.push(c),
                        e => viol!("C20/refused", "branch {:?} of {} cannot be read as what it is{when}: {:?}", spec.cols[i].name, spec.cols[i].ty, e.map(|r| r.err())),
                    }
                    if alive.len() > 6 {
                        alive.remove(0);
                    }
                }
                3..=5 if !alive.is_empty() => {
                    let k = pick % alive.len();
                    if let Adv::Loud(m) = alive[k].advance(1 + pick as u64 % 700, "C20")? {
                        if case.u("fail") == 0 {
                            viol!("C20/read-failed", "an iterator failed without a fault: {m}");
                        }
                        loud = true;
                        alive.remove(k);
                        cx.probe("an iterator failed");
                    }
                }
                6 if case.b("derived") => {
                    let stored = &spec.cols[0].ty;
                    let (t, r) = ask_struct(tree, pick as u64);
                    let fits = t == stored;
                    match r {
                        Ok(Ok(_)) if fits => cx.probe("derived reader with the matching type"),
                        Ok(Err(_)) if !fits => cx.probe("derived reader refused"),
                        Err(_) if fits && case.u("fail") > 0 => loud = true,
                        r => viol!("C20/derived", "a derived reader with a field of type {t} for a branch of {stored}{when}: {r:?}"),
                    }
                }
                7..=10 if !foreign.is_empty() => {
                    let (t, rec) = &foreign[pick % foreign.len()];
                    let all = t.branches_r();
                    let i = (pick / 64) % all.len().max(1);
                    let Some(e) = rec.a("branches").get(i) else { continue };
                    let stored = e.s("rust").replace("TString", "String");
                    let want = asked[(pick / 4096) % asked.len()];
                    if want == stored {
                        continue;
                    }
                    refuse(all[i], &format!("{} in {fixture}", e.s("cpp")), want, when)?;
                    cx.probe("refused for a branch of a ROOT-made file");
                }
                11 if !foreign.is_empty() => {
                    // the matching type, to the end
                    let (t, rec) = &foreign[pick % foreign.len()];
                    let i = (pick / 64) % t.branches_r().len().max(1);
                    let Some(e) = rec.a("branches").get(i) else { continue };
                    if e.get("items").is_null() || ["sd_t", "Point", "p1", "p2", "P3"].contains(&e.s("rust")) {
                        continue;
                    }
                    let r = guard(|| fixtures::held(t, i, 0).map(|r| r.map(|mut h| {
                        let mut v = vec![];
                        while let Some(x) = h.next() {
                            v.push(x);
                        }
                        v
                    })));
                    match r {
                        Ok(None) => {}
                        Ok(Some(Ok(v))) => {
                            let d = format!("{:x}", v.iter().fold(0, |h, x| mix2(h, *x)));
                            if d != e.s("digest") {
                                viol!("C20/wrong-data", "branch {:?} ({}) of {fixture} gives other items than recorded", e.s("name"), e.s("cpp"));
                            }
                            cx.probe("matching type of a ROOT-made file");
                        }
                        Ok(Some(Err(m))) => viol!("C20/refused", "branch {:?} of {fixture} cannot be read as {}{when}: {m}", e.s("name"), e.s("rust")),
                        Err(_) if case.u("fail") > 0 => loud = true,
                        Err(m) => viol!("C20/read-failed", "reading {fixture} failed without a fault: {m}"),
                    }
                }
                _ if !bs.is_empty() => {
                    let i = pick % bs.len();
                    let stored = &spec.cols[i].ty;
                    let want = asked[(pick / 8) % asked.len()];
                    if want != stored {
                        refuse(bs[i], stored, want, when)?;
                        cx.probe(if loud { "refused after a fault" } else { "refused" });
                    }
                }
                _ => {}
            }
        }
        // those still alive deliver the rest
        for mut c in alive {
            loop {
                match c.advance(1000, "C20")? {
                    Adv::More => {}
                    Adv::End => break,
                    Adv::Loud(m) => {
                        if case.u("fail") == 0 {
                            viol!("C20/read-failed", "an iterator failed without a fault: {m}");
                        }
                        break;
                    }
                }
            }
        }
        let _ = RootFile::keys(&f);
        drop(f);
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one case is a history in one process: branches of a written tree, of another one with the same names and other types, and of a ROOT-made file are asked for matching and for other types (also through derived readers) in seeded order, between steps of live iterators and after iterators that failed on injected read errors: a matching type is always accepted and delivers the model's items, any other is refused with an error naming both types, without a single I/O call, and leaves the live iterators undisturbed; non-trivial if a request was refused between iterator steps, or after a fault or short transfer"
    }
}
