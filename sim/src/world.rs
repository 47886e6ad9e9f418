//! Trees described by small specifications, their writing through the public
//! API, and their verification against the reference model.
use crate::engine::{guard, Res, Viol};
use crate::item::{self, Item, TYPES};
use crate::json::J;
use crate::rng::Rng;
use crate::{viol, with_type};
use oxyroot::{Branch, ReaderTree, RootFile, WriterTree};

#[derive(Clone, Debug, PartialEq)]
pub struct Col {
    pub name: String,
    pub ty: String,
    pub n: u64,
    pub mode: u64,
    pub seed: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub name: String,
    pub cols: Vec<Col>,
}

impl Spec {
    pub fn entries(&self) -> u64 {
        self.cols.iter().map(|c| c.n).max().unwrap_or(0)
    }
    pub fn to_j(&self) -> J {
        J::obj().set("name", self.name.as_str()).set(
            "cols",
            J::A(self
                .cols
                .iter()
                .map(|c| {
                    J::obj()
                        .set("name", c.name.as_str())
                        .set("t", c.ty.as_str())
                        .set("n", c.n)
                        .set("mode", c.mode)
                        .set("dseed", c.seed)
                })
                .collect()),
        )
    }
    pub fn of(j: &J) -> Spec {
        Spec {
            name: j.s("name").to_string(),
            cols: j
                .a("cols")
                .iter()
                .map(|c| Col {
                    name: c.s("name").to_string(),
                    ty: if c.s("t").is_empty() { "i32".into() } else { c.s("t").to_string() },
                    n: c.u("n"),
                    mode: c.u("mode"),
                    seed: c.u("dseed"),
                })
                .collect(),
        }
    }
}
pub fn specs_of(j: &J) -> Vec<Spec> {
    j.a("trees").iter().map(Spec::of).collect()
}
pub fn specs_j(v: &[Spec]) -> J {
    J::A(v.iter().map(|s| s.to_j()).collect())
}

// ------------------------------------------------------------------ generators
#[derive(Clone, Copy)]
pub struct GenOpt {
    /// upper bound for the bytes of one column
    pub col_bytes: u64,
    pub max_cols: u64,
    /// unusual names
    pub names: bool,
    /// allow columns of different lengths
    pub ragged: bool,
    /// allow items beyond 16 MB
    pub huge: bool,
}
pub const SMALL: GenOpt = GenOpt { col_bytes: 12_000, max_cols: 4, names: false, ragged: true, huge: false };
pub const MEDIUM: GenOpt = GenOpt { col_bytes: 120_000, max_cols: 5, names: true, ragged: true, huge: false };
pub const LARGE: GenOpt = GenOpt { col_bytes: 700_000, max_cols: 6, names: true, ragged: true, huge: false };

const NAMES: &[&str] = &[
    "semi;colon", "a;1", "", "\0", "\n", " ", "a:b", "vector<int32_t>", "a.", ".",
    "x", "it", "a b", "value.with.dots", "é€日本", "TTree", "_", "0", "UPPER", "a-b+c", "tree", "StreamerInfo", "b'quote\"", "tab\tname",
];
pub fn gen_name(r: &mut Rng, odd: bool) -> String {
    match if odd { r.below(12) } else { 0 } {
        0..=5 => format!("{}{}", ["b", "col", "energy", "px"][r.below(4) as usize], r.below(100)),
        6..=8 => r.pick(NAMES).to_string(),
        9 => "n".repeat(r.range(250, 260) as usize),
        10 => format!("{}{}", "long_name_".repeat(r.range(1, 80) as usize), r.below(10)),
        _ => format!("k{}", r.below(1000)),
    }
}

pub fn gen_len(r: &mut Rng, ty: &str, mode: u64, max_bytes: u64) -> u64 {
    let size = if item::is_var(ty) { (item::mean_len(mode) + 8) as u64 } else { item::type_size(ty) as u64 };
    let cap = (max_bytes / size.max(1)).max(1);
    let basket = 32_000u64;
    let per = (basket / size).max(1);
    let n = match r.below(14) {
        0 => 0,
        1 => 1,
        2 => r.range(2, 9),
        3..=5 => r.range(1, 200),
        6 => r.range(997, 1004),
        7 => r.range(1995, 2005),
        8 | 9 => {
            let k = r.range(1, 4);
            let d = r.range(0, 6);
            (per * k + 3).saturating_sub(d)
        }
        10 => per * r.range(9, 13) + r.below(3),
        11 => r.range(1, cap),
        12 => (per * r.range(1, 3)) / 2,
        _ => r.range(1, 60),
    };
    n.min(cap)
}

pub fn gen_mode(r: &mut Rng, ty: &str, huge: bool) -> u64 {
    let style = match r.below(10) {
        0..=5 => 0,
        6 => 1,
        7 => 2,
        _ => r.below(8),
    };
    let shape = if item::is_var(ty) {
        let s = *r.pick(&[0u64, 0, 0, 1, 2, 3, 3, 4, 4, 5, 6, 6, 7, 7, 9]);
        if huge && r.below(4) == 0 {
            8
        } else {
            s
        }
    } else {
        0
    };
    shape * 8 + style
}

pub fn gen_col(r: &mut Rng, o: &GenOpt, i: u64) -> Col {
    let ty = if r.below(3) == 0 {
        TYPES[r.range(11, 21) as usize].0
    } else {
        TYPES[r.below(TYPES.len() as u64) as usize].0
    };
    let mode = gen_mode(r, ty, o.huge);
    let mut n = gen_len(r, ty, mode, o.col_bytes);
    if mode / 8 == 8 && item::is_var(ty) {
        n = r.range(2, 5);
    }
    let name = gen_name(r, o.names);
    Col { name: if o.names && r.below(40) == 0 { name } else { format!("{name}_{i}") }, ty: ty.into(), n, mode, seed: r.seed() }
}

pub fn gen_spec(r: &mut Rng, o: &GenOpt) -> Spec {
    let k = match r.below(20) {
        0 => 0,
        1..=8 => 1,
        9..=14 => 2,
        _ => r.range(1, o.max_cols),
    };
    let mut cols: Vec<Col> = (0..k).map(|i| gen_col(r, o, i)).collect();
    if cols.len() > 1 && (!o.ragged || r.below(3) != 0) {
        let n = cols.iter().map(|c| c.n).min().unwrap();
        for c in cols.iter_mut() {
            c.n = n;
        }
    }
    Spec { name: gen_name(r, o.names), cols }
}

// ------------------------------------------------------------------ writing
pub fn add_col(tree: &mut WriterTree, c: &Col) {
    with_type!(c.ty.as_str(), T => {
        let (seed, mode, n) = (c.seed, c.mode, c.n);
        tree.new_branch(&c.name, (0..n).map(move |i| {
            crate::simos::tick();
            <T as Item>::gen(seed, mode, i)
        }));
    })
}
pub fn new_tree(s: &Spec) -> WriterTree {
    let mut t = WriterTree::new(&s.name);
    for c in &s.cols {
        add_col(&mut t, c);
    }
    t
}

/// what happened to a write session
#[derive(Clone, Debug, PartialEq)]
pub enum WOut {
    Done,
    /// step name and error text
    Err(&'static str, String),
    Panic(&'static str, String),
}
impl WOut {
    pub fn ok(&self) -> bool {
        *self == WOut::Done
    }
}

/// create, write every tree, close
pub fn write_file(path: &str, specs: &[Spec]) -> WOut {
    let mut f = match guard(|| RootFile::create(path)) {
        Ok(Ok(f)) => f,
        Ok(Err(e)) => return WOut::Err("create", format!("{e:?}")),
        Err(m) => return WOut::Panic("create", m),
    };
    let r = write_into(&mut f, specs);
    if !r.ok() {
        if let Err(m) = guard(move || drop(f)) {
            return WOut::Panic("drop", m);
        }
        return r;
    }
    let r = match guard(|| f.close()) {
        Ok(Ok(())) => WOut::Done,
        Ok(Err(e)) => WOut::Err("close", format!("{e:?}")),
        Err(m) => WOut::Panic("close", m),
    };
    if let Err(m) = guard(move || drop(f)) {
        return WOut::Panic("drop", m);
    }
    r
}
pub fn write_into(f: &mut RootFile, specs: &[Spec]) -> WOut {
    for s in specs {
        match guard(|| new_tree(s).write(f)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return WOut::Err("write", format!("{e:?}")),
            Err(m) => return WOut::Panic("write", m),
        }
    }
    WOut::Done
}
/// a file that is expected to be written without trouble
pub fn must_write(path: &str, specs: &[Spec], id: &str) -> Res<()> {
    match write_file(path, specs) {
        WOut::Done => Ok(()),
        o => viol!(format!("{id}/write-failed"), "writing {path} failed: {o:?}"),
    }
}

// ------------------------------------------------------------------ reading
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Api {
    Iter,
    Unchecked,
    Basket,
}
pub fn api_of(n: u64) -> Api {
    match n % 3 {
        0 => Api::Iter,
        1 => Api::Unchecked,
        _ => Api::Basket,
    }
}

/// a running iteration that compares what it delivers with the model
pub struct Probe<'a> {
    next: Box<dyn FnMut() -> Step + 'a>,
    pub at: u64,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Step {
    Item,
    Wrong(String),
    End,
}
impl<'a> Probe<'a> {
    pub fn step(&mut self) -> Step {
        crate::simos::tick();
        let s = (self.next)();
        if s == Step::Item {
            self.at += 1;
        }
        s
    }
}

fn short<T: std::fmt::Debug>(v: &T) -> String {
    let s = format!("{v:?}");
    if s.len() > 120 {
        let mut e = 120;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}... ({} chars)", &s[..e], s.len())
    } else {
        s
    }
}

/// starts an iteration of `col` over `b`; Err is the library's refusal
pub fn probe<'a>(b: &'a Branch, col: &Col, api: Api) -> Result<Probe<'a>, String> {
    with_type!(col.ty.as_str(), T => {
        let mut it: Box<dyn Iterator<Item = T> + 'a> = match api {
            Api::Iter => Box::new(b.as_iter::<T>().map_err(|e| format!("{e:?}"))?),
            Api::Unchecked => Box::new(b.as_iter_unchecked::<T>()),
            Api::Basket => Box::new(b.get_basket(|r| <T as Item>::read_raw(r))),
        };
        let (seed, mode, n) = (col.seed, col.mode, col.n);
        let mut i = 0u64;
        Ok(Probe { at: 0, next: Box::new(move || match it.next() {
            None => Step::End,
            Some(v) => {
                if i >= n {
                    return Step::Wrong(format!("item {i} delivered, the branch has only {n}: {}", short(&v)));
                }
                let w = <T as Item>::gen(seed, mode, i);
                if !w.same(&v) {
                    return Step::Wrong(format!("item {i} is {} instead of {}", short(&v), short(&w)));
                }
                i += 1;
                Step::Item
            }
        })})
    })
}

/// outcome of reading one column completely
#[derive(Clone, Debug, PartialEq)]
pub enum RStat {
    Complete,
    /// loud failure after this many right items
    Loud(u64, String),
}

/// reads a column to its end. Wrong values and silent ends are violations always.
pub fn read_col(b: &Branch, col: &Col, api: Api, id: &str) -> Res<RStat> {
    let mut at = 0;
    let r = guard(|| -> Result<Res<()>, String> {
        let mut p = probe(b, col, api)?;
        loop {
            match p.step() {
                Step::Item => at = p.at,
                Step::Wrong(m) => {
                    return Ok(Err(Viol::new(format!("{id}/wrong-data"), format!("branch {:?} ({}): {m}", col.name, col.ty))))
                }
                Step::End => {
                    if p.at < col.n {
                        return Ok(Err(Viol::new(
                            format!("{id}/silent-end"),
                            format!("branch {:?} ({}) ended normally after {} of {} items", col.name, col.ty, p.at, col.n),
                        )));
                    }
                    // an exhausted iterator stays exhausted
                    if p.step() != Step::End {
                        return Ok(Err(Viol::new(format!("{id}/after-end"), "item after the end")));
                    }
                    return Ok(Ok(()));
                }
            }
        }
    });
    match r {
        Err(m) => Ok(RStat::Loud(at, format!("panic: {m}"))),
        Ok(Err(e)) => Ok(RStat::Loud(at, e)),
        Ok(Ok(Err(v))) => Err(v),
        Ok(Ok(Ok(()))) => Ok(RStat::Complete),
    }
}

/// names, counts and order of a fetched tree against its specification
pub fn check_shape(t: &ReaderTree, s: &Spec, id: &str) -> Res<()> {
    if t.entries() != s.entries() as i64 {
        viol!(format!("{id}/entries"), "tree {:?} reports {} entries instead of {}", s.name, t.entries(), s.entries());
    }
    let names: Vec<String> = t.branches().map(|b| b.name().to_string()).collect();
    let want: Vec<String> = s.cols.iter().map(|c| c.name.clone()).collect();
    if names != want {
        viol!(format!("{id}/branches"), "tree {:?} has branches {names:?} instead of {want:?}", s.name);
    }
    for (b, c) in t.branches().zip(&s.cols) {
        if b.entries() != c.n as i64 {
            viol!(format!("{id}/branch-entries"), "branch {:?} reports {} entries instead of {}", c.name, b.entries(), c.n);
        }
        match t.branch(&c.name) {
            None => viol!(format!("{id}/branch-lookup"), "branch {:?} is not found by its name", c.name),
            Some(x) => {
                if x.name() != c.name {
                    viol!(format!("{id}/branch-lookup"), "branch {:?} found under the name {:?}", x.name(), c.name)
                }
            }
        }
    }
    Ok(())
}

/// the specifications visible under their names: the last one written of each name
pub fn newest(specs: &[Spec]) -> Vec<&Spec> {
    let mut out: Vec<&Spec> = vec![];
    for s in specs {
        out.retain(|o| o.name != s.name);
        out.push(s);
    }
    out
}

/// Opens and reads everything; any error, panic or difference is a violation.
pub fn must_read(path: &str, specs: &[Spec], apis: u64, id: &str) -> Res<()> {
    let mut f = match guard(|| RootFile::open(path)) {
        Ok(Ok(f)) => f,
        Ok(Err(e)) => viol!(format!("{id}/open-failed"), "open failed: {e:?}"),
        Err(m) => viol!(format!("{id}/open-failed"), "open panicked: {m}"),
    };
    let keys: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
    let want: Vec<String> = specs.iter().map(|s| s.name.clone()).collect();
    if keys != want {
        viol!(format!("{id}/keys"), "the file lists {keys:?} instead of {want:?}");
    }
    for s in newest(specs) {
        let t = match guard(|| f.get_tree(&s.name)) {
            Ok(Ok(t)) => t,
            Ok(Err(e)) => viol!(format!("{id}/tree-failed"), "get_tree({:?}) failed: {e:?}", s.name),
            Err(m) => viol!(format!("{id}/tree-failed"), "get_tree({:?}) panicked: {m}", s.name),
        };
        check_shape(&t, s, id)?;
        for (i, (b, c)) in t.branches().zip(&s.cols).enumerate() {
            match read_col(b, c, api_of(apis + i as u64), id)? {
                RStat::Complete => {}
                RStat::Loud(at, m) => {
                    viol!(format!("{id}/read-failed"), "branch {:?} ({}) failed at item {at} of {}: {m}", c.name, c.ty, c.n)
                }
            }
        }
    }
    Ok(())
}

/// What an unsuccessful or faulty reading session came to.
#[derive(Clone, Debug, PartialEq)]
pub enum Seen {
    OpenErr(String),
    OpenPanic(String),
    TreeErr(String, String),
    TreePanic(String, String),
    Loud(String),
    Complete,
}

/// Reads what can be read. Violations: wrong data, silent ends, wrong shapes of
/// trees that could be fetched. `keys_exact`: the key list must be the full one.
pub fn try_read(path: &str, specs: &[Spec], apis: u64, id: &str, keys_exact: bool) -> Res<Vec<Seen>> {
    let mut out = vec![];
    let mut f = match guard(|| RootFile::open(path)) {
        Ok(Ok(f)) => f,
        Ok(Err(e)) => return Ok(vec![Seen::OpenErr(format!("{e:?}"))]),
        Err(m) => return Ok(vec![Seen::OpenPanic(m)]),
    };
    let keys: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
    let want: Vec<String> = specs.iter().map(|s| s.name.clone()).collect();
    if keys != want {
        let prefix = keys.len() <= want.len() && keys[..] == want[..keys.len()];
        if keys_exact || !prefix {
            viol!(format!("{id}/keys"), "the file lists {keys:?} instead of {want:?}");
        }
    }
    for s in newest(&specs[..keys.len().min(specs.len())]) {
        let t = match guard(|| f.get_tree(&s.name)) {
            Ok(Ok(t)) => t,
            Ok(Err(e)) => {
                out.push(Seen::TreeErr(s.name.clone(), format!("{e:?}")));
                continue;
            }
            Err(m) => {
                out.push(Seen::TreePanic(s.name.clone(), m));
                continue;
            }
        };
        check_shape(&t, s, id)?;
        for (i, (b, c)) in t.branches().zip(&s.cols).enumerate() {
            match read_col(b, c, api_of(apis + i as u64), id)? {
                RStat::Complete => {}
                RStat::Loud(at, m) => out.push(Seen::Loud(format!("{:?} item {at}: {m}", c.name))),
            }
        }
    }
    if out.is_empty() {
        out.push(Seen::Complete);
    }
    Ok(out)
}

// ------------------------------------------------------------------ paths and probes
/// a path below /simfs, sometimes long, deep or with unusual characters
pub fn gen_path(r: &mut Rng) -> String {
    match r.below(16) {
        0 => format!("/simfs/{}.root", "p".repeat(r.range(200, 240) as usize)),
        1 => "/simfs/dir with space/日本.root".into(),
        2 => format!("/simfs/{}/f.root", "deep/".repeat(r.range(1, 20) as usize)),
        5 => format!("/simfs/{}f.root", "longdirectory/".repeat(r.range(10, 120) as usize)),
        3 => "/simfs/noext".into(),
        4 => "/simfs/d/../rel.root".into(),
        _ => "/simfs/f.root".into(),
    }
}
pub fn path_of(case: &J) -> String {
    let p = case.s("path");
    let p = if p.starts_with("/simfs/") { p.to_string() } else { "/simfs/f.root".into() };
    // the directories of the path
    let mut at = 7;
    while let Some(i) = p[at..].find('/') {
        let d = &p[..at + i];
        if !d.ends_with("..") {
            crate::simos::add_dir(d);
        }
        at += i + 1;
    }
    p
}
/// conditions of the written data worth counting
pub fn note_specs(cx: &mut crate::engine::Cx, specs: &[Spec]) {
    for s in specs {
        if s.cols.is_empty() {
            cx.probe("tree without branches");
        }
        if s.cols.windows(2).any(|w| w[0].n != w[1].n) {
            cx.probe("branches of different lengths");
        }
        for c in &s.cols {
            if c.n == 0 {
                cx.probe("empty branch");
            }
            let size = if item::is_var(&c.ty) { item::mean_len(c.mode) as u64 + 8 } else { item::type_size(&c.ty) as u64 };
            if c.n * size > 64_000 {
                cx.probe("branch over several baskets");
            }
            if c.n * size > 330_000 {
                cx.probe("more baskets than the initial table");
            }
            if item::is_var(&c.ty) {
                cx.probe("variable-size items");
                if c.mode / 8 == 8 {
                    cx.probe("items over 16 MB");
                }
                if c.n > 1000 {
                    cx.probe("over 1000 variable-size items");
                }
            }
        }
    }
}

// ------------------------------------------------------------------ cursors that own their tree
pub struct Cursor {
    probe: Probe<'static>,
    pub col: Col,
    _tree: std::rc::Rc<ReaderTree>,
}
impl Cursor {
    /// an iteration of the branch at `idx`, which has to be `col`
    pub fn new(t: &std::rc::Rc<ReaderTree>, idx: usize, col: &Col, api: Api) -> Result<Cursor, String> {
        let tree = t.clone();
        let bs: Vec<&Branch> = tree.branches().collect();
        let Some(b) = bs.get(idx) else { return Err("no such branch".into()) };
        // the branch lives as long as the Rc kept beside the iterator
        let b: &'static Branch = unsafe { std::mem::transmute::<&Branch, &'static Branch>(*b) };
        Ok(Cursor { probe: probe(b, col, api)?, col: col.clone(), _tree: t.clone() })
    }
    pub fn at(&self) -> u64 {
        self.probe.at
    }
    /// advances by up to `k` items; None: it ended (at the right place), Some(true): all items came
    pub fn advance(&mut self, k: u64, id: &str) -> Res<Adv> {
        let r = guard(|| -> Res<Adv> {
            for _ in 0..k {
                match self.probe.step() {
                    Step::Item => {}
                    Step::Wrong(m) => viol!(format!("{id}/wrong-data"), "branch {:?} ({}): {m}", self.col.name, self.col.ty),
                    Step::End => {
                        if self.probe.at < self.col.n {
                            viol!(
                                format!("{id}/silent-end"),
                                "branch {:?} ({}) ended after {} of {} items",
                                self.col.name,
                                self.col.ty,
                                self.probe.at,
                                self.col.n
                            );
                        }
                        return Ok(Adv::End);
                    }
                }
            }
            Ok(Adv::More)
        });
        match r {
            Ok(r) => r,
            Err(m) => Ok(Adv::Loud(m)),
        }
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum Adv {
    More,
    End,
    Loud(String),
}
/// opens and fetches one tree, without trouble
pub fn must_fetch(f: &mut RootFile, s: &Spec, id: &str) -> Res<std::rc::Rc<ReaderTree>> {
    let t = match guard(|| f.get_tree(&s.name)) {
        Ok(Ok(t)) => t,
        e => viol!(format!("{id}/tree-failed"), "get_tree({:?}): {:?}", s.name, e.map(|r| r.err())),
    };
    check_shape(&t, s, id)?;
    Ok(std::rc::Rc::new(t))
}
pub fn must_open(path: &str, id: &str) -> Res<RootFile> {
    match guard(|| RootFile::open(path)) {
        Ok(Ok(f)) => Ok(f),
        e => viol!(format!("{id}/open-failed"), "open({path}): {:?}", e.map(|r| r.err())),
    }
}
/// the numbers of an array of a case
pub fn nums(case: &J, key: &str) -> Vec<u64> {
    case.a(key).iter().map(|x| x.as_i().max(0) as u64).collect()
}
pub fn gen_nums(r: &mut Rng, n: u64, below: u64) -> J {
    J::A((0..n).map(|_| J::I(r.below(below) as i64)).collect())
}
