//! C16: files made by other programs (ROOT, uproot, groot, Geant4).
use crate::engine::{cfg_of, gen_io, guard, no_io, Cx, Plan, Prop, Res, Tier, Viol};
use crate::faults::*;
use crate::json::J;
use crate::rng::{hash_str, mix2, Rng};
use crate::simos::{self, Config, Fault};
use crate::viol;
use oxyroot::{Branch, RBuffer, ReaderTree, RootFile, Slice, UnmarshalerInto};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::OnceLock;

macro_rules! files {
    ($($n:literal),*) => { &[$(($n, include_bytes!(concat!("../../fixtures/", $n)))),*] };
}
pub const FILES: &[(&str, &[u8])] = files!(
    "HZZ.root", "g4-like.root", "g4-ntuples.root", "sample-6.10.05-lz4.root", "sample-6.10.05-lzma.root",
    "sample-6.10.05-uncompressed.root", "sample-6.10.05-zlib.root", "simple.root", "small-evnt-tree-fullsplit.root",
    "stl_containers.root", "struct_sd.root", "t04_01_write_tree_points.root", "t04_02_write_tree_points_prefix.root",
    "t04_03_write_tree_pointsvector.root", "t04_04_write_twopoints.root", "t04_05_write_severalpoints.root",
    "tree_with_jagged_array.root", "tree_with_user_info_with_map.root"
);
pub const SMALL_FILES: &[&str] = &[
    "g4-like.root", "sample-6.10.05-lz4.root", "sample-6.10.05-lzma.root", "sample-6.10.05-uncompressed.root",
    "sample-6.10.05-zlib.root", "simple.root", "small-evnt-tree-fullsplit.root", "stl_containers.root",
    "t04_01_write_tree_points.root", "t04_03_write_tree_pointsvector.root", "t04_04_write_twopoints.root",
    "t04_05_write_severalpoints.root", "tree_with_jagged_array.root", "tree_with_user_info_with_map.root",
];
pub fn bytes(name: &str) -> &'static [u8] {
    FILES.iter().find(|f| f.0 == name).map(|f| f.1).unwrap_or(FILES[7].1)
}
static DIGESTS: OnceLock<J> = OnceLock::new();
/// parses the recorded digests once, before cases are forked
pub fn load() -> &'static J {
    DIGESTS.get_or_init(|| J::parse(include_str!("../../fixtures/digests.json")).unwrap_or(J::Null))
}

// ------------------------------------------------------------------ value digests
pub trait Dig {
    fn dig(&self) -> u64;
}
macro_rules! dig_prim { ($($t:ty),*) => { $( impl Dig for $t { fn dig(&self) -> u64 { mix2(11, *self as u64) } } )* } }
dig_prim!(i8, u8, i16, u16, i32, u32, i64, u64, bool);
impl Dig for f32 {
    fn dig(&self) -> u64 {
        mix2(12, self.to_bits() as u64)
    }
}
impl Dig for f64 {
    fn dig(&self) -> u64 {
        mix2(13, self.to_bits())
    }
}
impl Dig for String {
    fn dig(&self) -> u64 {
        mix2(14, hash_str(self))
    }
}
fn seq<'a, T: Dig + 'a>(i: impl Iterator<Item = &'a T>) -> u64 {
    i.fold(15, |h, x| mix2(h, x.dig()))
}
impl<T: Dig> Dig for Vec<T> {
    fn dig(&self) -> u64 {
        seq(self.iter())
    }
}
impl<T: Dig> Dig for Slice<T> {
    fn dig(&self) -> u64 {
        seq(self.inner().iter())
    }
}
impl<T: Dig, const N: usize> Dig for [T; N] {
    fn dig(&self) -> u64 {
        seq(self.iter())
    }
}
// without order
impl<T: Dig> Dig for HashSet<T> {
    fn dig(&self) -> u64 {
        self.iter().fold(self.len() as u64, |h, x| h.wrapping_add(mix2(16, x.dig())))
    }
}
impl<K: Dig, V: Dig> Dig for HashMap<K, V> {
    fn dig(&self) -> u64 {
        self.iter().fold(self.len() as u64, |h, (k, v)| h.wrapping_add(mix2(mix2(17, k.dig()), v.dig())))
    }
}

pub type Digests<'a> = Box<dyn Iterator<Item = u64> + 'a>;
fn typed<'a, T: UnmarshalerInto<Item = T> + Dig + 'a>(b: &'a Branch, api: u64) -> Result<Digests<'a>, String> {
    Ok(match api % 3 {
        0 => Box::new(b.as_iter::<T>().map_err(|e| format!("{e:?}"))?.map(|v| v.dig())),
        1 => Box::new(b.as_iter_unchecked::<T>().map(|v| v.dig())),
        _ => Box::new(b.get_basket(|r| r.read_object_into::<T>().unwrap()).map(|v| v.dig())),
    })
}
fn raw<'a>(b: &'a Branch, f: impl Fn(&mut RBuffer) -> u64 + 'a) -> Result<Digests<'a>, String> {
    Ok(Box::new(b.get_basket(move |r| f(r))))
}
/// digests of the items of a branch in order; None for layouts the library does not read
pub fn digests<'a>(b: &'a Branch, api: u64) -> Option<Result<Digests<'a>, String>> {
    let t = b.interpretation().replace("TString", "String");
    macro_rules! go { ($($n:literal => $t:ty),* $(,)?) => { match t.as_str() { $($n => Some(typed::<$t>(b, api)),)* _ => None } } }
    macro_rules! prims { ($($n:literal $t:ty),*) => {{
        let mut r = None;
        $(
            if t == $n { r = Some(typed::<$t>(b, api)); }
            if t == concat!("Slice<", $n, ">") { r = Some(typed::<Slice<$t>>(b, api)); }
            if t == concat!("Vec<", $n, ">") { r = Some(typed::<Vec<$t>>(b, api)); }
            if t == concat!("[", $n, ";3]") { r = Some(typed::<[$t; 3]>(b, api)); }
            if t == concat!("[", $n, ";10]") { r = Some(typed::<[$t; 10]>(b, api)); }
        )*
        r
    }} }
    prims!("i8" i8, "u8" u8, "i16" i16, "u16" u16, "i32" i32, "u32" u32, "i64" i64, "u64" u64, "f32" f32, "f64" f64, "bool" bool)
    .or_else(|| go!(
        "String" => String,
        "Vec<String>" => Vec<String>,
        "Vec<Vec<i32>>" => Vec<Vec<i32>>,
        "Vec<Vec<String>>" => Vec<Vec<String>>,
        "Vec<HashSet<i32>>" => Vec<HashSet<i32>>,
        "Vec<HashSet<String>>" => Vec<HashSet<String>>,
        "HashSet<i32>" => HashSet<i32>,
        "HashSet<String>" => HashSet<String>,
        "HashMap<i32,i16>" => HashMap<i32, i16>,
        "HashMap<i32,Vec<i16>>" => HashMap<i32, Vec<i16>>,
        "HashMap<i32,Vec<String>>" => HashMap<i32, Vec<String>>,
        "HashMap<i32,HashSet<i16>>" => HashMap<i32, HashSet<i16>>,
        "HashMap<i32,HashSet<String>>" => HashMap<i32, HashSet<String>>,
        "HashMap<i32,Vec<Vec<i16>>>" => HashMap<i32, Vec<Vec<i16>>>,
        "HashMap<i32,Vec<HashSet<i16>>>" => HashMap<i32, Vec<HashSet<i16>>>,
        "HashMap<String,i16>" => HashMap<String, i16>,
        "HashMap<String,Vec<i16>>" => HashMap<String, Vec<i16>>,
        "HashMap<String,Vec<String>>" => HashMap<String, Vec<String>>,
        "HashMap<String,HashSet<i16>>" => HashMap<String, HashSet<i16>>,
        "HashMap<String,HashSet<String>>" => HashMap<String, HashSet<String>>,
        "HashMap<String,String>" => HashMap<String, String>,
    ))
    .or_else(|| match t.as_str() {
        // structures, read by hand
        "sd_t" | "Point" | "p1" | "p2" => Some(raw(b, |r| mix2(r.read_i32().unwrap() as u64, r.read_i32().unwrap() as u64))),
        "P3" => Some(raw(b, |r| {
            let (x, y, z) = (r.read_i32().unwrap(), r.read_f64().unwrap(), r.read_i32().unwrap());
            mix2(mix2(x as u64, y.to_bits()), z as u64)
        })),
        _ => None,
    })
}

/// an iteration that keeps its tree alive
pub struct Held {
    it: Digests<'static>,
    _tree: Rc<ReaderTree>,
}
impl Held {
    pub fn next(&mut self) -> Option<u64> {
        self.it.next()
    }
}
pub fn held(t: &Rc<ReaderTree>, idx: usize, api: u64) -> Option<Result<Held, String>> {
    let tree = t.clone();
    // the branches live as long as the Rc kept beside the iterator
    let b: &'static Branch = unsafe { std::mem::transmute::<&Branch, &'static Branch>(*tree.branches_r().get(idx)?) };
    digests(b, api).map(|r| r.map(|it| Held { it, _tree: tree.clone() }))
}

// ------------------------------------------------------------------ recording (development only)
pub fn record() -> J {
    let mut out = J::obj();
    for (name, data) in FILES {
        let dir = std::env::temp_dir().join(format!("simcheck-rec-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let p = dir.join(name);
        std::fs::write(&p, data).unwrap();
        let mut f = RootFile::open(&p).unwrap();
        let mut trees = vec![];
        for n in tree_names(&f) {
            let t = f.get_tree(&n).unwrap();
            let mut bs = vec![];
            for b in t.branches_r() {
                let mut e = J::obj().set("name", b.name()).set("cpp", b.item_type_name().as_str()).set("rust", b.interpretation().as_str()).set("entries", b.entries() as u64);
                if let Some(r) = digests(b, 0) {
                    let v: Result<Vec<u64>, String> = guard(|| r.unwrap().collect());
                    match v {
                        Ok(v) => {
                            e.put("items", v.len());
                            e.put("digest", format!("{:x}", v.iter().fold(0, |h, x| mix2(h, *x))).as_str());
                        }
                        Err(m) => eprintln!("{name} {n} {}: {m}", b.name()),
                    }
                } else {
                    eprintln!("{name} {n} {} ({}): not readable", b.name(), b.interpretation());
                }
                bs.push(e);
            }
            trees.push(J::obj().set("tree", n.as_str()).set("entries", t.entries() as u64).set("branches", J::A(bs)));
        }
        std::fs::remove_dir_all(&dir).unwrap();
        out.put(name, J::A(trees));
    }
    out
}

/// names of the trees in a file, in listing order, once each
pub fn tree_names(f: &RootFile) -> Vec<String> {
    use oxyroot::Named;
    let mut v: Vec<String> = vec![];
    for k in f.keys() {
        if k.class_name() == "TTree" {
            let n = k.name().to_string();
            if !v.contains(&n) {
                v.push(n);
            }
        }
    }
    v
}

// ------------------------------------------------------------------ C16
pub struct C16;
struct Opened {
    file: String,
    tree: Rc<ReaderTree>,
    want: &'static J,
}
fn open_all(files: &[String]) -> Res<Result<Vec<Opened>, String>> {
    let mut out = vec![];
    for (i, n) in files.iter().enumerate() {
        let path = format!("/simfs/{i}-{n}");
        let mut f = match guard(|| RootFile::open(&path)) {
            Ok(Ok(f)) => f,
            e => return Ok(Err(format!("open {n}: {:?}", e.map(|r| r.err())))),
        };
        let want = load().get(n).as_a();
        let names: Vec<&str> = want.iter().map(|t| t.s("tree")).collect();
        let got = tree_names(&f);
        if got != names {
            viol!("C16/trees", "{n} lists the trees {got:?} instead of {names:?}");
        }
        for w in want {
            let t = match guard(|| f.get_tree(w.s("tree"))) {
                Ok(Ok(t)) => t,
                e => return Ok(Err(format!("get_tree {n} {}: {:?}", w.s("tree"), e.map(|r| r.err())))),
            };
            if t.entries() != w.i("entries") {
                viol!("C16/entries", "{n} {}: {} entries instead of {}", w.s("tree"), t.entries(), w.i("entries"));
            }
            let bs = t.branches_r();
            let wb = w.a("branches");
            if bs.len() != wb.len() {
                viol!("C16/branches", "{n} {}: {} branches instead of {}", w.s("tree"), bs.len(), wb.len());
            }
            for (b, x) in bs.iter().zip(wb) {
                let got = (b.name(), b.item_type_name(), b.interpretation(), b.entries());
                if got != (x.s("name"), x.s("cpp").to_string(), x.s("rust").to_string(), x.i("entries")) {
                    viol!("C16/branch", "{n} {}: branch {got:?} instead of {x:?}", w.s("tree"));
                }
            }
            out.push(Opened { file: n.clone(), tree: Rc::new(t), want: w });
        }
    }
    Ok(Ok(out))
}
/// the readable branches: (opened tree, branch index)
fn readable(o: &[Opened]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (i, t) in o.iter().enumerate() {
        for (k, b) in t.want.a("branches").iter().enumerate() {
            if !b.get("digest").is_null() {
                v.push((i, k));
            }
        }
    }
    v
}

impl C16 {
    /// fault-free: picks branches, reads them interleaved; returns the digests of every item
    fn interleaved(&self, case: &J, o: &[Opened], cx: &mut Cx) -> Res<BTreeMap<(usize, usize), Vec<u64>>> {
        let mut r = Rng::new(case.u("pick_seed"));
        let all = readable(o);
        let k = case.u("branches").max(1).min(all.len() as u64);
        let mut pick = vec![];
        if k >= all.len() as u64 {
            pick = all.clone();
        } else {
            while (pick.len() as u64) < k {
                let x = *r.pick(&all);
                if !pick.contains(&x) {
                    pick.push(x);
                }
            }
        }
        let api = case.u("apis");
        let start = |p: (usize, usize), api: u64| -> Res<Held> {
            match guard(|| held(&o[p.0].tree, p.1, api)) {
                Ok(Some(Ok(h))) => Ok(h),
                e => viol!("C16/iter", "{} branch {}: no iterator: {:?}", o[p.0].file, p.1, e.map(|x| x.map(|y| y.err()))),
            }
        };
        let mut live: Vec<((usize, usize), Held, Vec<u64>)> = vec![];
        let mut done = BTreeMap::new();
        for p in &pick {
            live.push((*p, start(*p, api + p.1 as u64)?, vec![]));
        }
        let burst = case.u("burst").max(1);
        let mut restarts = 10;
        while !live.is_empty() {
            let i = r.below(live.len() as u64) as usize;
            let n = 1 + r.below(burst);
            let mut end = false;
            for _ in 0..n {
                let e = &mut live[i];
                match guard(|| e.1.next()) {
                    Ok(Some(d)) => e.2.push(d),
                    Ok(None) => {
                        end = true;
                        break;
                    }
                    Err(m) => viol!("C16/read-failed", "{} branch {} item {}: panic: {m}", o[e.0 .0].file, e.0 .1, e.2.len()),
                }
            }
            if end {
                let (p, _, v) = live.swap_remove(i);
                let b = &o[p.0].want.a("branches")[p.1];
                let d = format!("{:x}", v.iter().fold(0, |h, x| mix2(h, *x)));
                if v.len() as u64 != b.u("items") || d != b.s("digest") {
                    viol!(
                        "C16/wrong-data",
                        "{} branch {:?} ({}): {} items with digest {d} instead of {} items with digest {}",
                        o[p.0].file,
                        b.s("name"),
                        b.s("cpp"),
                        v.len(),
                        b.u("items"),
                        b.s("digest")
                    );
                }
                done.insert(p, v);
            } else if restarts > 0 && r.below(50) == 0 {
                restarts -= 1;
                // drop one half-way and start it again
                let p = live[i].0;
                live[i] = (p, start(p, api + 1)?, vec![]);
                cx.probe("iterator dropped half-way and recreated");
            }
        }
        Ok(done)
    }
    fn faulty(&self, o: &[Opened], good: &BTreeMap<(usize, usize), Vec<u64>>, api: u64, cx: &mut Cx) -> Res<()> {
        for (p, want) in good {
            let b = &o[p.0].want.a("branches")[p.1];
            let what = format!("{} branch {:?} ({})", o[p.0].file, b.s("name"), b.s("cpp"));
            let mut i = 0;
            let res = guard(|| -> Res<bool> {
                let Some(Ok(mut h)) = held(&o[p.0].tree, p.1, api + p.1 as u64) else { return Ok(false) };
                loop {
                    match h.next() {
                        Some(d) => {
                            if want.get(i) != Some(&d) {
                                viol!("C16/wrong-data", "{what}: item {i} differs from the fault-free one");
                            }
                            i += 1;
                        }
                        None => {
                            if i < want.len() {
                                viol!("C16/silent-end", "{what}: ended normally after {i} of {} items", want.len());
                            }
                            return Ok(true);
                        }
                    }
                }
            });
            match res {
                Ok(r) => {
                    if !r? {
                        cx.probe("iterator refused");
                    }
                }
                Err(_) => cx.probe("loud failure during iteration"),
            }
        }
        Ok(())
    }
}
impl Prop for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 3000, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 60_000, wall: 780, cpu: 60 },
        }
    }
    fn prepare(&self) {
        load();
    }
    fn gen(&self, r: &mut Rng, idx: u64, t: Tier) -> J {
        let fault = idx % 2 == 1;
        let mut files = vec![J::from(FILES[(idx / 2) as usize % FILES.len()].0)];
        if r.below(3) == 0 {
            files.push(J::from(r.pick(FILES).0));
        }
        J::obj()
            .set("files", J::A(files))
            .set("branches", if r.below(3) == 0 { 1000 } else { r.range(1, 8) })
            .set("burst", *r.pick(&[1u64, 3, 40, 5000]))
            .set("apis", r.below(3))
            .set("pick_seed", r.seed())
            .set("pseed", r.seed())
            .set("points", if !fault { 0u64 } else if t == Tier::Quick { 20 } else { 60 })
            .set("io", if r.below(4) == 0 { no_io() } else { gen_io(r) })
            .set("rand_seed", r.seed())
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        let files: Vec<String> = case.a("files").iter().map(|f| f.as_s().to_string()).filter(|f| FILES.iter().any(|x| x.0 == f)).collect();
        if files.is_empty() {
            return Ok(());
        }
        let setup = |cfg: &Config, cx: &mut Cx| {
            cx.boot(cfg);
            for (i, n) in files.iter().enumerate() {
                simos::put_file(&format!("/simfs/{i}-{n}"), bytes(n));
            }
        };
        setup(&cfg, cx);
        simos::set_phase(1);
        let o = match open_all(&files)? {
            Ok(o) => o,
            Err(m) => viol!("C16/open-failed", "{m}"),
        };
        simos::set_phase(3);
        let good = self.interleaved(case, &o, cx)?;
        let cen = census(&[1, 3], super::reading::RCLASSES);
        drop(o);
        let plans: Vec<Vec<Fault>> = match faults_of(case) {
            Some(f) => vec![f],
            None => {
                let mut r = Rng::new(case.u("pseed"));
                let n = case.u("points") as usize;
                if n == 0 {
                    return Ok(());
                }
                points(&mut r, &cen, n)
                    .into_iter()
                    .map(|(phase, class, nth)| {
                        let kind = super::reading::read_fault(&mut r, class, &[]);
                        vec![Fault { phase, class, nth, kind, persist: r.below(2) == 0 }]
                    })
                    .collect()
            }
        };
        for f in plans {
            setup(&Config { faults: f.clone(), ..cfg.clone() }, cx);
            simos::set_phase(1);
            let narrow = |mut v: Viol| {
                let small = with_faults(case, &f);
                v.msg = format!("{} (faults {})", v.msg, small.get("faults"));
                v.narrowed = Some(small);
                v
            };
            match open_all(&files).map_err(narrow)? {
                Err(m) => {
                    cx.probe("error while opening");
                    if m.contains("Err(\"") {
                        // a panic of open or get_tree is judged by C06
                        cx.probe("panic while opening");
                    }
                }
                Ok(o) => {
                    simos::set_phase(3);
                    self.faulty(&o, &good, case.u("apis"), cx).map_err(narrow)?;
                }
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one case opens one or two of 18 files made by ROOT, uproot, groot and Geant4 (zlib, lzma, lz4 and uncompressed), reads a selection or all of their branches through interleaved iterators under short transfers and EINTR and compares every branch with its recorded digest; half of the cases repeat the reading once per selected call with that call failing and compare item by item; non-trivial if a fault, interruption or short transfer occurred"
    }
}
