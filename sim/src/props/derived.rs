//! C11: derived structs keep the fields of one row together.
use super::fixtures;
use crate::engine::{cfg_of, gen_io, guard, no_io, Cx, Plan, Prop, Res, Tier, Viol};
use crate::faults::*;
use crate::item::Item;
use crate::json::J;
use crate::rng::{mix2, Rng};
use crate::simos::{self, Class, Config, Fault};
use crate::viol;
use crate::world::*;
use oxyroot::{ReadFromTree, ReaderTree, RootFile, Slice, WriteToTree, WriterTree};

/// a struct whose value for row `i` is a function of (seed, mode, i)
trait Row: Sized + 'static {
    fn make(seed: u64, mode: u64, i: u64) -> Self;
    fn same(&self, o: &Self) -> bool;
    /// the branches that hold it
    fn cols(seed: u64, mode: u64, n: u64) -> Vec<Col>;
}
fn fseed(seed: u64, f: &str) -> u64 {
    mix2(seed, crate::rng::hash_str(f)) >> 1
}

macro_rules! row {
    ($n:ident { $($f:ident : $t:ty = $ts:literal),* $(,)? }) => {
        impl Row for $n {
            fn make(seed: u64, mode: u64, i: u64) -> Self {
                $n { $($f: <$t as Item>::gen(fseed(seed, stringify!($f)), mode, i)),* }
            }
            fn same(&self, o: &Self) -> bool {
                true $(&& <$t as Item>::same(&self.$f, &o.$f))*
            }
            fn cols(seed: u64, mode: u64, n: u64) -> Vec<Col> {
                vec![$(Col { name: stringify!($f).into(), ty: $ts.into(), n, mode, seed: fseed(seed, stringify!($f)) }),*]
            }
        }
    };
}
/// nested structs: the branches of the inner ones come in their place
macro_rules! nest {
    (@impl $n:ident { $($f:ident : $t:ty),* ; $($g:ident : $u:ty = $us:literal),* }) => {
        impl Row for $n {
            fn make(seed: u64, mode: u64, i: u64) -> Self {
                $n { $($f: <$t as Row>::make(seed, mode, i),)* $($g: <$u as Item>::gen(fseed(seed, stringify!($g)), mode, i)),* }
            }
            fn same(&self, o: &Self) -> bool {
                true $(&& <$t as Row>::same(&self.$f, &o.$f))* $(&& <$u as Item>::same(&self.$g, &o.$g))*
            }
            fn cols(seed: u64, mode: u64, n: u64) -> Vec<Col> {
                let mut v = vec![];
                $(v.extend(<$t as Row>::cols(seed, mode, n));)*
                $(v.push(Col { name: stringify!($g).into(), ty: $us.into(), n, mode, seed: fseed(seed, stringify!($g)) });)*
                v
            }
        }
    };
}

#[derive(Debug, ReadFromTree, WriteToTree)]
struct One {
    a: i32,
}
row!(One { a: i32 = "i32" });
#[derive(Debug, ReadFromTree, WriteToTree)]
struct Txt {
    s: String,
}
row!(Txt { s: String = "String" });
#[derive(Debug, ReadFromTree, WriteToTree)]
struct Mix {
    a: i32,
    b: i16,
    c: Vec<i32>,
    d: String,
}
row!(Mix { a: i32 = "i32", b: i16 = "i16", c: Vec<i32> = "Vec<i32>", d: String = "String" });
#[derive(Debug, ReadFromTree, WriteToTree)]
struct Prims {
    a: i8,
    b: u8,
    c: i16,
    d: u16,
    e: i32,
    f: u32,
    g: i64,
    h: u64,
    i: f32,
    j: f64,
    k: bool,
}
row!(Prims { a: i8 = "i8", b: u8 = "u8", c: i16 = "i16", d: u16 = "u16", e: i32 = "i32", f: u32 = "u32", g: i64 = "i64", h: u64 = "u64", i: f32 = "f32", j: f64 = "f64", k: bool = "bool" });
#[derive(Debug, ReadFromTree, WriteToTree)]
struct Vecs {
    x: Vec<f64>,
    y: Vec<u8>,
    n: [i32; 3],
    t: String,
    z: Vec<i64>,
    m: [f64; 3],
    u: String,
}
row!(Vecs { x: Vec<f64> = "Vec<f64>", y: Vec<u8> = "Vec<u8>", n: [i32; 3] = "[i32;3]", t: String = "String", z: Vec<i64> = "Vec<i64>", m: [f64; 3] = "[f64;3]", u: String = "String" });
#[derive(Debug, ReadFromTree, WriteToTree)]
struct Wide {
    c00: i32,
    c01: f64,
    c02: i32,
    c03: u8,
    c04: i64,
    c05: i16,
    c06: i32,
    c07: f32,
    c08: i32,
    c09: i32,
    c10: String,
    c11: u64,
    c12: i32,
    c13: bool,
    c14: i8,
    c15: Vec<i16>,
    c16: u32,
    c17: u16,
}
row!(Wide { c00: i32 = "i32", c01: f64 = "f64", c02: i32 = "i32", c03: u8 = "u8", c04: i64 = "i64", c05: i16 = "i16", c06: i32 = "i32", c07: f32 = "f32", c08: i32 = "i32", c09: i32 = "i32", c10: String = "String", c11: u64 = "u64", c12: i32 = "i32", c13: bool = "bool", c14: i8 = "i8", c15: Vec<i16> = "Vec<i16>", c16: u32 = "u32", c17: u16 = "u16" });

// the same branches under other field names
#[derive(Debug, ReadFromTree)]
struct Renamed {
    #[oxyroot(rename = "d")]
    text: String,
    #[oxyroot(rename = "a")]
    b: i32,
    #[oxyroot(absolute_name = "c")]
    list: Vec<i32>,
    #[oxyroot(rename = "b")]
    a: i16,
}

// nested structs, written flat
#[derive(Debug, ReadFromTree, WriteToTree)]
struct In1 {
    #[oxyroot(absolute_name = "p")]
    p: u8,
    #[oxyroot(absolute_name = "q")]
    q: String,
}
row!(In1 { p: u8 = "u8", q: String = "String" });
#[derive(Debug, ReadFromTree, WriteToTree)]
struct In2 {
    #[oxyroot(absolute_name = "v")]
    v: Vec<i32>,
    #[oxyroot(absolute_name = "w")]
    w: f64,
}
row!(In2 { v: Vec<i32> = "Vec<i32>", w: f64 = "f64" });
#[derive(Debug, ReadFromTree, WriteToTree)]
struct NestFirst {
    i1: In1,
    y: f32,
    z: String,
}
nest!(@impl NestFirst { i1: In1; y: f32 = "f32", z: String = "String" });
#[derive(Debug, ReadFromTree, WriteToTree)]
struct NestOnly {
    i1: In1,
    i2: In2,
}
nest!(@impl NestOnly { i1: In1, i2: In2; });
#[derive(Debug, ReadFromTree, WriteToTree)]
struct Mid {
    i2: In2,
    #[oxyroot(absolute_name = "r")]
    r: i16,
}
nest!(@impl Mid { i2: In2; r: i16 = "i16" });
#[derive(Debug, ReadFromTree, WriteToTree)]
struct NestDeep {
    m: Mid,
    y: i64,
}
nest!(@impl NestDeep { m: Mid; y: i64 = "i64" });

// nested structs read from dotted branches, with prefixes
#[derive(Debug, ReadFromTree)]
struct Dot {
    x: i32,
    y: f64,
    #[oxyroot(branch_prefix = "l_")]
    t: String,
}
#[derive(Debug, ReadFromTree)]
#[oxyroot(branch_prefix = "pre_")]
struct Dots {
    first: Dot,
    k: u16,
    second: Dot,
    #[oxyroot(absolute_name = "lone")]
    e: Vec<u32>,
    #[oxyroot(branch_prefix = "own_")]
    f: i8,
}
const DOT_COLS: &[(&str, &str)] = &[
    ("pre_first.x", "i32"),
    ("pre_first.y", "f64"),
    ("pre_first.l_t", "String"),
    ("pre_k", "u16"),
    ("pre_second.x", "i32"),
    ("pre_second.y", "f64"),
    ("pre_second.l_t", "String"),
    ("lone", "Vec<u32>"),
    ("own_f", "i8"),
];

// three levels, among branches whose names end alike
#[derive(Debug, ReadFromTree)]
struct Leaf3 {
    v: i32,
    #[oxyroot(branch_prefix = "q_")]
    s: String,
    #[oxyroot(rename = "k")]
    m: u16,
}
#[derive(Debug, ReadFromTree)]
struct Leaf2 {
    leaf: Leaf3,
    w: f64,
}
#[derive(Debug, ReadFromTree)]
struct Leaf1 {
    a: Leaf2,
    #[oxyroot(branch_prefix = "z_")]
    b: Leaf2,
    v: i32,
}
#[derive(Debug, ReadFromTree)]
struct Levels {
    top: Leaf1,
    a: Leaf2,
    leaf: Leaf3,
    v: i32,
    #[oxyroot(absolute_name = "abs")]
    c: Leaf2,
    #[oxyroot(rename = "ren")]
    d: Leaf3,
}
const LEAF2: &[(&str, &str)] = &[("leaf.v", "i32"), ("leaf.q_s", "String"), ("leaf.k", "u16"), ("w", "f64")];
const LEVEL_COLS: &[(&str, &str)] = &[
    // of no field
    ("top.leaf.v", "i32"),
    ("top.b.leaf.v", "i32"),
    ("top.z_a.leaf.v", "i32"),
    ("z_b.leaf.v", "i32"),
    ("b.leaf.v", "i32"),
    ("b.w", "f64"),
    ("z_b.w", "f64"),
    ("w", "f64"),
    ("k", "u16"),
    ("s", "String"),
    ("q_s", "String"),
    ("leaf.s", "String"),
    ("leaf.m", "u16"),
    ("c.w", "f64"),
    ("c.leaf.v", "i32"),
    ("abs.v", "i32"),
    ("d.v", "i32"),
    ("top.w", "f64"),
    ("a.v", "i32"),
    // of fields
    ("top.v", "i32"),
    ("v", "i32"),
    ("leaf.v", "i32"),
    ("leaf.q_s", "String"),
    ("leaf.k", "u16"),
    ("ren.v", "i32"),
    ("ren.q_s", "String"),
    ("ren.k", "u16"),
];
fn level_cols() -> Vec<(String, &'static str)> {
    let mut v: Vec<(String, &str)> = LEVEL_COLS.iter().map(|(c, t)| (c.to_string(), *t)).collect();
    for p in ["top.a", "top.z_b", "a", "abs"] {
        v.extend(LEAF2.iter().map(|(c, t)| (format!("{p}.{c}"), *t)));
    }
    v
}

// structures of files made by ROOT
#[derive(Debug, ReadFromTree)]
#[oxyroot(slicable)]
struct Point {
    x: i32,
    y: i32,
}
#[derive(Debug, ReadFromTree)]
struct TwoPoints {
    p1: Point,
    p2: Point,
}
#[derive(Debug, ReadFromTree)]
struct SeveralPoints {
    #[oxyroot(slicable = "Point")]
    points: Vec<Point>,
}
#[derive(Debug, ReadFromTree)]
struct PointVecs {
    x: Vec<i32>,
    y: Vec<i32>,
}

/// one running derived reader: Ok(None) at the end, Err for a wrong row
type Rows<'a> = Box<dyn FnMut(u64) -> Result<bool, String> + 'a>;

fn rows<'a, R: Row + ReadFromTree<'a> + std::fmt::Debug>(t: &'a ReaderTree, seed: u64, mode: u64, n: u64) -> Result<Rows<'a>, String> {
    let mut it = R::from_tree(t).map_err(|e| format!("{e:?}"))?;
    Ok(Box::new(move |i| {
        simos::tick();
        match it.next() {
            None => Ok(false),
            Some(_) if i >= n => Err(format!("row {i} delivered, there are only {n}")),
            Some(v) if v.same(&R::make(seed, mode, i)) => Ok(true),
            Some(v) => Err(format!("row {i} is {}", short(&v))),
        }
    }))
}
fn custom<'a, T: std::fmt::Debug + 'a>(it: impl Iterator<Item = T> + 'a, n: u64, ok: impl Fn(&T, u64) -> bool + 'a) -> Rows<'a> {
    let mut it = Box::new(it);
    Box::new(move |i| match it.next() {
        None => Ok(false),
        Some(_) if i >= n => Err(format!("row {i} delivered, there are only {n}")),
        Some(v) if ok(&v, i) => Ok(true),
        Some(v) => Err(format!("row {i} is {}", short(&v))),
    })
}
fn short<T: std::fmt::Debug>(v: &T) -> String {
    let s: String = format!("{v:?}");
    s.chars().take(200).collect()
}

const KINDS: &[&str] = &["One", "Txt", "Mix", "Prims", "Vecs", "Wide", "NestFirst", "NestOnly", "NestDeep", "Renamed", "Dots", "Levels"];
macro_rules! with_row {
    ($k:expr, $T:ident => $e:expr) => {{
        macro_rules! arm { ($t:ty) => {{ type $T = $t; $e }}; }
        match $k {
            "One" => arm!(One),
            "Txt" => arm!(Txt),
            "Prims" => arm!(Prims),
            "Vecs" => arm!(Vecs),
            "Wide" => arm!(Wide),
            "NestFirst" => arm!(NestFirst),
            "NestOnly" => arm!(NestOnly),
            "NestDeep" => arm!(NestDeep),
            _ => arm!(Mix),
        }
    }};
}
fn cols_of(kind: &str, seed: u64, mode: u64, n: u64) -> Vec<Col> {
    if kind == "Dots" {
        return DOT_COLS.iter().map(|(c, t)| Col { name: c.to_string(), ty: t.to_string(), n, mode, seed: fseed(seed, c) }).collect();
    }
    if kind == "Levels" {
        return level_cols().into_iter().map(|(c, t)| Col { ty: t.to_string(), n, mode, seed: fseed(seed, &c), name: c }).collect();
    }
    with_row!(kind, T => T::cols(seed, mode, n))
}
/// adds the rows to a tree, computed or taken from a derived reader of another file
fn add_rows(t: &mut WriterTree, kind: &str, seed: u64, mode: u64, n: u64, src: Option<&'static ReaderTree>) -> Result<(), String> {
    if kind == "Dots" || kind == "Levels" {
        for c in cols_of(kind, seed, mode, n) {
            add_col(t, &c);
        }
        return Ok(());
    }
    with_row!(kind, T => {
        match src {
            None => T::to_tree((0..n).map(move |i| { simos::tick(); T::make(seed, mode, i) }), t),
            Some(s) => match T::from_tree(s) {
                Ok(it) => T::to_tree(it, t),
                Err(e) => Err(e),
            },
        }
    })
    .map_err(|e| format!("{e:?}"))
}
fn reader<'a>(t: &'a ReaderTree, kind: &str, seed: u64, mode: u64, n: u64) -> Result<Rows<'a>, String> {
    match kind {
        "Renamed" => {
            let it = Renamed::from_tree(t).map_err(|e| format!("{e:?}"))?;
            Ok(custom(it, n, move |r, i| {
                let m = Mix::make(seed, mode, i);
                m.same(&Mix { a: r.b, b: r.a, c: r.list.clone(), d: r.text.clone() })
            }))
        }
        "Levels" => {
            let it = Levels::from_tree(t).map_err(|e| format!("{e:?}"))?;
            Ok(custom(it, n, move |r, i| {
                fn at<T: Item>(seed: u64, mode: u64, i: u64, c: &str) -> T {
                    T::gen(fseed(seed, c), mode, i)
                }
                let int = |v: &i32, c: &str| v.same(&at(seed, mode, i, c));
                let l3 = |d: &Leaf3, p: &str| {
                    int(&d.v, &format!("{p}.v")) && d.s.same(&at(seed, mode, i, &format!("{p}.q_s"))) && d.m.same(&at(seed, mode, i, &format!("{p}.k")))
                };
                let l2 = |d: &Leaf2, p: &str| l3(&d.leaf, &format!("{p}.leaf")) && d.w.same(&at(seed, mode, i, &format!("{p}.w")));
                l2(&r.top.a, "top.a")
                    && l2(&r.top.b, "top.z_b")
                    && int(&r.top.v, "top.v")
                    && l2(&r.a, "a")
                    && l3(&r.leaf, "leaf")
                    && int(&r.v, "v")
                    && l2(&r.c, "abs")
                    && l3(&r.d, "ren")
            }))
        }
        "Dots" => {
            let it = Dots::from_tree(t).map_err(|e| format!("{e:?}"))?;
            Ok(custom(it, n, move |r, i| {
                fn at<T: Item>(seed: u64, mode: u64, i: u64, c: &str) -> T {
                    T::gen(fseed(seed, c), mode, i)
                }
                let dot = |d: &Dot, p: &str| {
                    d.x.same(&at(seed, mode, i, &format!("{p}.x"))) && d.y.same(&at(seed, mode, i, &format!("{p}.y"))) && d.t.same(&at(seed, mode, i, &format!("{p}.l_t")))
                };
                dot(&r.first, "pre_first")
                    && dot(&r.second, "pre_second")
                    && r.k.same(&at(seed, mode, i, "pre_k"))
                    && r.e.same(&at(seed, mode, i, "lone"))
                    && r.f.same(&at(seed, mode, i, "own_f"))
            }))
        }
        _ => with_row!(kind, T => rows::<T>(t, seed, mode, n)),
    }
}

const FIXED: &[(&str, &str)] = &[
    ("t04_01_write_tree_points.root", "points"),
    ("t04_03_write_tree_pointsvector.root", "vectors"),
    ("t04_04_write_twopoints.root", "two"),
    ("t04_05_write_severalpoints.root", "several"),
];
fn fixed_reader<'a>(t: &'a ReaderTree, what: &str, n: u64, lens: &'a [usize]) -> Result<Rows<'a>, String> {
    let e = |e| format!("{e:?}");
    Ok(match what {
        "points" => custom(Point::from_tree(t).map_err(e)?, n, |p, i| p.x as u64 == i && p.y as u64 == i * i),
        "vectors" => custom(PointVecs::from_tree(t).map_err(e)?, n, |p, i| p.x == vec![i as i32; i as usize] && p.y == (0..i as i32).collect::<Vec<_>>()),
        "two" => custom(TwoPoints::from_tree(t).map_err(e)?, n, |p, i| p.p1.x as u64 == i && p.p2.y as u64 == i * i),
        _ => custom(SeveralPoints::from_tree(t).map_err(e)?, n, move |p, i| {
            p.points.len() == lens.get(i as usize).copied().unwrap_or(0)
                && p.points.iter().enumerate().all(|(k, q)| q.x == k as i32 && q.y == (k * k) as i32)
        }),
    })
}

pub struct C11;
impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 12000, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 300_000, wall: 780, cpu: 60 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> J {
        let kind = KINDS[(idx % KINDS.len() as u64) as usize];
        let mut mode = gen_mode(r, "Vec<f64>", false);
        if mode / 8 == 8 {
            mode %= 8;
        }
        let bytes = if idx % 7 == 6 { 400_000 } else { 40_000 };
        let n = gen_len(r, "Vec<f64>", mode, bytes);
        let what = if idx % 13 == 12 { "fixed" } else { *r.pick(&["plain", "plain", "pipe", "two", "fault", "fault"]) };
        let readers = r.range(1, 4);
        J::obj()
            .set("row", kind)
            .set("what", what)
            .set("n", n)
            .set("mode", mode)
            .set("dseed", r.seed())
            .set("with", *r.pick(KINDS))
            .set("n2", gen_len(r, "i64", 0, 8000))
            .set("fx", r.below(FIXED.len() as u64))
            .set("readers", readers)
            .set("steps", J::A((0..r.range(0, 30)).map(|_| J::A(vec![J::I(r.below(readers) as i64), J::I(*r.pick(&[1i64, 1, 2, 7, 50, 400]))])).collect()))
            .set("apis", r.below(3))
            .set("pseed", r.seed())
            .set("points", 10u64)
            .set("io", if r.below(2) == 0 { gen_io(r) } else { no_io() })
            .set("rand_seed", r.seed())
    }
    fn prepare(&self) {
        fixtures::load();
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let id = "C11";
        let cfg = cfg_of(case);
        let path = "/simfs/f.root";
        let (kind, what) = (case.s("row").to_string(), case.s("what").to_string());
        let (n, mode, seed) = (case.u("n"), case.u("mode"), case.u("dseed"));
        cx.boot(&cfg);
        cx.probe(&format!("{kind} {what}"));
        let fixed = what == "fixed";
        let (mut rows, mut lens) = (n, vec![]);
        let spec = Spec { name: "t".into(), cols: cols_of(&kind, seed, mode, n) };
        let fx = FIXED[case.u("fx") as usize % FIXED.len()];
        let tree = if fixed { "myTree" } else { "t" };
        if fixed {
            simos::put_file(path, fixtures::bytes(fx.0));
            (rows, lens) = self.measure(path)?;
        } else {
            self.write(case, cx, path, &kind, n, mode, seed, &what)?;
            // branch by branch
            if what != "two" {
                must_read(path, std::slice::from_ref(&spec), case.u("apis"), id)?;
            }
        }
        let img = simos::get_file(path).unwrap_or_default();
        let open = |cx: &mut Cx, faults: &[Fault]| {
            cx.boot(&Config { faults: faults.to_vec(), ..cfg.clone() });
            simos::put_file(path, &img);
            simos::set_phase(1);
        };
        open(cx, &[]);
        let mk = |t: &'static ReaderTree, k: usize| -> Result<Rows<'static>, String> {
            if fixed {
                return fixed_reader(t, fx.1, rows, lens.clone().leak());
            }
            if what == "two" && k % 2 == 1 {
                let (k2, n2) = (self.second(case, &kind), case.u("n2"));
                return reader(t, k2, seed ^ 77, 0, n2);
            }
            reader(t, &kind, seed, mode, n)
        };
        let counts = |k: usize| if !fixed && what == "two" && k % 2 == 1 { case.u("n2") } else { rows };
        self.read(case, path, tree, &mk, &counts, false)?;
        if what != "fault" && !fixed {
            return Ok(());
        }
        let cen = census(&[1], &[Class::Read, Class::Seek]);
        let mut r = Rng::new(case.u("pseed"));
        let plans: Vec<Vec<Fault>> = match faults_of(case) {
            Some(f) => vec![f],
            None => points(&mut r, &cen, case.u("points") as usize)
                .into_iter()
                .map(|(phase, class, nth)| vec![Fault { phase, class, nth, kind: error_kind(&mut r, class), persist: r.below(3) == 0 }])
                .collect(),
        };
        for faults in plans {
            open(cx, &faults);
            self.read(case, path, tree, &mk, &counts, true).map_err(|mut v: Viol| {
                v.narrowed = Some(with_faults(case, &faults));
                v.msg = format!("{} (fault {})", v.msg, with_faults(case, &faults).get("faults"));
                v
            })?;
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one case writes a sequence of derived structs (twelve layouts: primitives, strings, vectors, arrays, nested up to three levels, renamed, prefixed, dotted, among branches whose names end alike; computed or taken from a derived reader; also two sequences in one tree) or takes a file made by ROOT, reads it branch by branch and by up to four interleaved derived readers, also with disk errors at sampled calls, and compares row by row; non-trivial if a fault, interruption or short transfer occurred"
    }
}

impl C11 {
    /// a second sequence whose branches do not collide with those of the first
    fn second(&self, case: &J, kind: &str) -> &'static str {
        let w = case.s("with");
        let a: Vec<String> = cols_of(kind, 0, 0, 0).into_iter().map(|c| c.name).collect();
        for k in KINDS.iter().filter(|k| **k == w).chain(KINDS) {
            if *k != "Renamed" && cols_of(k, 0, 0, 0).iter().all(|c| !a.contains(&c.name)) {
                return k;
            }
        }
        "Dots"
    }
    #[allow(clippy::too_many_arguments)]
    fn write(&self, case: &J, cx: &mut Cx, path: &str, kind: &str, n: u64, mode: u64, seed: u64, what: &str) -> Res<()> {
        let mut src = None;
        if what == "pipe" {
            self.write(case, cx, "/simfs/src.root", kind, n, mode, seed, "plain")?;
            let t = must_open("/simfs/src.root", "C11")?.get_tree("t");
            match t {
                Ok(t) => src = Some(&*Box::leak(Box::new(t))),
                Err(e) => viol!("C11/tree-failed", "{e:?}"),
            }
        }
        let r = guard(|| -> Result<(), String> {
            let e = |e| format!("{e:?}");
            let mut f = RootFile::create(path).map_err(e)?;
            let mut t = WriterTree::new("t");
            add_rows(&mut t, kind, seed, mode, n, src)?;
            if what == "two" {
                add_rows(&mut t, self.second(case, kind), seed ^ 77, 0, case.u("n2"), None)?;
            }
            t.write(&mut f).map_err(|e| format!("{e:?}"))?;
            f.close().map_err(|e| format!("{e:?}"))
        });
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(m)) | Err(m) => viol!("C11/write-failed", "{m}"),
        }
    }
    /// rows of a fixture and the lengths of its vectors, branch by branch
    fn measure(&self, path: &str) -> Res<(u64, Vec<usize>)> {
        let mut f = must_open(path, "C11")?;
        let r = guard(|| -> Result<(u64, Vec<usize>), String> {
            let t = f.get_tree("myTree").map_err(|e| format!("{e:?}"))?;
            let n = t.entries() as u64;
            let mut lens = vec![];
            if let Some(b) = t.branch("points.x") {
                lens = b.as_iter::<Slice<i32>>().map_err(|e| format!("{e:?}"))?.map(|s| s.into_vec().len()).collect();
            }
            Ok((n, lens))
        });
        match r {
            Ok(Ok(x)) => Ok(x),
            e => viol!("C11/read-failed", "{:?}", e.map(|r| r.err())),
        }
    }
    fn read(
        &self,
        case: &J,
        path: &str,
        tree: &str,
        mk: &dyn Fn(&'static ReaderTree, usize) -> Result<Rows<'static>, String>,
        counts: &dyn Fn(usize) -> u64,
        faulty: bool,
    ) -> Res<()> {
        let t = match guard(|| RootFile::open(path).and_then(|mut f| f.get_tree(tree))) {
            Ok(Ok(t)) => t,
            Ok(Err(_)) if faulty => return Ok(()),
            e => viol!("C11/tree-failed", "{:?}", e.map(|r| r.err())),
        };
        let t: &'static ReaderTree = Box::leak(Box::new(t));
        let k = case.u("readers").clamp(1, 6) as usize;
        // (reader, rows delivered, finished)
        let mut rs: Vec<(Option<Rows>, u64)> = vec![];
        for i in 0..k {
            match guard(|| mk(t, i)) {
                Ok(Ok(r)) => rs.push((Some(r), 0)),
                Ok(Err(_)) | Err(_) if faulty => rs.push((None, 0)),
                Ok(Err(m)) | Err(m) => viol!("C11/reader-failed", "{m}"),
            }
        }
        let step = |rs: &mut Vec<(Option<Rows>, u64)>, i: usize, n: u64| -> Res<()> {
            let (r, at) = &mut rs[i];
            let Some(f) = r else { return Ok(()) };
            for _ in 0..n {
                match guard(|| f(*at)) {
                    Ok(Ok(true)) => *at += 1,
                    Ok(Ok(false)) => {
                        if *at != counts(i) {
                            viol!("C11/silent-end", "reader {i} ended after {at} of {} rows", counts(i));
                        }
                        *r = None;
                        return Ok(());
                    }
                    Ok(Err(m)) => viol!("C11/wrong-row", "reader {i}: {m}"),
                    Err(m) => {
                        if !faulty {
                            viol!("C11/read-failed", "reader {i} row {at}: {m}");
                        }
                        *r = None;
                        return Ok(());
                    }
                }
            }
            Ok(())
        };
        for s in case.a("steps") {
            let v: Vec<u64> = s.as_a().iter().map(|x| x.as_i().max(0) as u64).collect();
            if v.len() == 2 {
                step(&mut rs, v[0] as usize % k, v[1])?;
            }
        }
        for i in 0..k {
            step(&mut rs, i, u64::MAX)?;
        }
        Ok(())
    }
}
