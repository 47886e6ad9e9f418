//! C25: columns in the layouts of ROOT and Geant4, which the library only reads.
use super::reading::RCLASSES;
use crate::engine::{cfg_of, gen_io, guard, no_io, Cx, Plan, Prop, Res, Tier, Viol};
use crate::faults::*;
use crate::item::Item;
use crate::json::J;
use crate::rng::Rng;
use crate::rootmake::{self, Col, Kind, Made, Node, BRANCHES, FIXED, KINDS, OLD, OTHERS, PRIMS, STALE, TREES};
use crate::simos::{self, Config, Fault, Kind as Trouble};
use crate::world::*;
use crate::{viol, with_prim};
use oxyroot::{Branch, ReaderTree, RootFile, Slice, UnmarshalerInto};
use std::fmt::Debug;

type Rows<'a> = Box<dyn Iterator<Item = Vec<u8>> + 'a>;

fn start<'a, T>(b: &'a Branch, api: Api, f: fn(T) -> Vec<u8>) -> Result<Rows<'a>, String>
where
    T: UnmarshalerInto<Item = T> + 'a,
{
    Ok(match api {
        Api::Iter => Box::new(b.as_iter::<T>().map_err(|e| format!("{e:?}"))?.map(f)),
        Api::Unchecked => Box::new(b.as_iter_unchecked::<T>().map(f)),
        Api::Basket => Box::new(b.get_basket(|r| r.read_object_into::<T>().unwrap()).map(f)),
    })
}
fn one<T: Item>(v: T) -> Vec<u8> {
    let mut o = vec![];
    v.encode(&mut o);
    o
}
fn arr<T: Item, const N: usize>(v: [T; N]) -> Vec<u8> {
    v.into_iter().flat_map(one).collect()
}
fn grid<T: Item, const N: usize, const K: usize>(v: [[T; N]; K]) -> Vec<u8> {
    v.into_iter().flat_map(arr).collect()
}
fn slice<T: Item>(v: Slice<T>) -> Vec<u8> {
    v.into_vec().into_iter().flat_map(one).collect()
}
fn slices<T: Item, const N: usize>(v: Slice<[T; N]>) -> Vec<u8> {
    v.into_vec().into_iter().flat_map(arr).collect()
}

/// the rows of a column, encoded again as they are stored
fn rows<'a>(b: &'a Branch, c: &Col, api: Api) -> Result<Rows<'a>, String> {
    const N: usize = FIXED as usize;
    if c.kind == Kind::Text {
        return start::<String>(b, api, one);
    }
    with_prim!(c.ty.as_str(), T => match c.kind {
        Kind::Plain | Kind::Member => start::<T>(b, api, one),
        Kind::Fixed | Kind::MemberFixed => start::<[T; N]>(b, api, arr),
        Kind::Grid => start::<[[T; N]; 2]>(b, api, grid),
        Kind::Jagged | Kind::MemberJagged => start::<Slice<T>>(b, api, slice),
        Kind::JaggedGrid => start::<Slice<[T; N]>>(b, api, slices),
        _ => start::<Vec<T>>(b, api, one),
    })
}
/// the Rust type the documentation names for the column
fn rust_type(c: &Col) -> String {
    let t = &c.ty;
    match c.kind {
        Kind::Text => "String".into(),
        Kind::Plain | Kind::Member => t.clone(),
        Kind::Fixed | Kind::MemberFixed => format!("[{t};{FIXED}]"),
        Kind::Grid => format!("[[{t};{FIXED}];2]"),
        Kind::Jagged | Kind::MemberJagged => format!("Slice<{t}>"),
        Kind::JaggedGrid => format!("Slice<[{t};{FIXED}]>"),
        Kind::Vector => format!("Vec<{t}>"),
    }
}

/// the columns of the file in its order, with the counters of the arrays
fn expected(v: &[Node], out: &mut Vec<(Col, Option<Col>)>) {
    for n in v {
        match n {
            Node::Col(c, of) => out.push((c.clone(), of.clone())),
            Node::Up(_, v) => expected(v, out),
        }
    }
}
/// the branches below one branch: names, order, what is found by its name
fn structure<'a>(t: &'a ReaderTree, got: Vec<&'a Branch>, all: &[&'a Branch], v: &[Node], what: &str) -> Res<()> {
    let names: Vec<&str> = got.iter().map(|b| b.name()).collect();
    let should: Vec<&str> = v.iter().map(name_of).collect();
    if names != should {
        viol!("C25/branches", "{what} has branches {names:?} instead of {should:?}");
    }
    for (b, n) in got.iter().zip(v) {
        match t.branch(b.name()) {
            Some(x) if std::ptr::eq(x, *b) => {}
            x => viol!("C25/lookup", "branch({:?}) gives {:?}", b.name(), x.map(|x| x.name())),
        }
        if !all.iter().any(|x| std::ptr::eq(*x, *b)) {
            viol!("C25/branches", "branches_r leaves out {:?}", b.name());
        }
        let below: Vec<&Branch> = b.branches().collect();
        match n {
            Node::Up(name, v) => {
                let mut flat = vec![];
                flatten(v, &mut flat);
                let r: Vec<&str> = b.branches_r().iter().map(|b| b.name()).collect();
                if r != flat {
                    viol!("C25/branches", "branch {name:?} has below it {r:?} instead of {flat:?}");
                }
                for x in b.branches_r() {
                    if !b.branch(x.name()).is_some_and(|y| std::ptr::eq(x, y)) {
                        viol!("C25/lookup", "branch {name:?} does not find {:?} below it", x.name());
                    }
                }
                structure(t, below, all, v, &format!("branch {name:?}"))?
            }
            _ if below.is_empty() => {}
            _ => viol!("C25/branches", "column {:?} has branches", b.name()),
        }
    }
    Ok(())
}
fn name_of(n: &Node) -> &str {
    match n {
        Node::Col(c, _) => &c.name,
        Node::Up(n, _) => n,
    }
}
fn flatten<'a>(v: &'a [Node], out: &mut Vec<&'a str>) {
    for n in v {
        out.push(name_of(n));
        if let Node::Up(_, v) = n {
            flatten(v, out);
        }
    }
}
/// the columns of the tree, without the branches above them
fn columns(t: &ReaderTree) -> Vec<&Branch> {
    t.branches_r().into_iter().filter(|b| b.branches().next().is_none()).collect()
}
fn want(m: &Made, c: &(Col, Option<Col>), i: u64) -> Vec<u8> {
    match &c.1 {
        Some(j) => (j.row_len(m.rows, i) as i32).to_be_bytes().to_vec(),
        None => c.0.payload(m.rows, i),
    }
}
fn hex(b: &[u8]) -> String {
    let s: String = b.iter().take(24).map(|x| format!("{x:02x}")).collect();
    if b.len() > 24 {
        format!("{s}.. ({} bytes)", b.len())
    } else {
        format!("{s} ({} bytes)", b.len())
    }
}
fn about(c: &Col) -> String {
    format!("column {:?} ({} of {})", c.name, KINDS.iter().find(|k| k.1 == c.kind).unwrap().0, c.ty)
}

/// reads one column; Ok(Some) is a loud failure
fn column(t: &ReaderTree, k: usize, m: &Made, c: &(Col, Option<Col>), api: Api) -> Res<Option<String>> {
    let mut at = 0;
    let r = guard(|| -> Result<Res<()>, String> {
        let bs = columns(t);
        let mut it = rows(bs[k], &c.0, api)?;
        while let Some(got) = it.next() {
            if at >= m.rows {
                return Ok(Err(Viol::new("C25/wrong-data", format!("{}: row {at} delivered, there are only {}", about(&c.0), m.rows))));
            }
            let w = want(m, c, at);
            if got != w {
                return Ok(Err(Viol::new("C25/wrong-data", format!("{}: row {at} is {} instead of {}", about(&c.0), hex(&got), hex(&w)))));
            }
            at += 1;
        }
        if at < m.rows {
            return Ok(Err(Viol::new("C25/silent-end", format!("{} ended after {at} of {} rows", about(&c.0), m.rows))));
        }
        if it.next().is_some() {
            return Ok(Err(Viol::new("C25/wrong-data", format!("{}: a row after the end", about(&c.0)))));
        }
        Ok(Ok(()))
    });
    match r {
        Err(p) => Ok(Some(format!("{} panicked at row {at}: {p}", about(&c.0)))),
        Ok(Err(e)) => Ok(Some(format!("{} refused: {e}", about(&c.0)))),
        Ok(Ok(r)) => r.map(|_| None),
    }
}

/// all columns, row by row; Ok(Some) is a loud failure
fn together(t: &ReaderTree, m: &Made, cols: &[(Col, Option<Col>)], api: u64) -> Res<Option<String>> {
    let r = guard(|| -> Result<Res<()>, String> {
        let bs = columns(t);
        let mut its = vec![];
        for (k, c) in cols.iter().enumerate() {
            its.push(rows(bs[k], &c.0, api_of(api + k as u64))?);
        }
        for i in 0..m.rows {
            for (k, c) in cols.iter().enumerate() {
                let w = want(m, c, i);
                let g = its[k].next();
                if g.as_ref() != Some(&w) {
                    let g = g.map_or("nothing".into(), |g| hex(&g));
                    return Ok(Err(Viol::new("C25/wrong-data", format!("{} beside the others: row {i} is {g} instead of {}", about(&c.0), hex(&w)))));
                }
            }
        }
        Ok(Ok(()))
    });
    match r {
        Err(p) => Ok(Some(format!("reading side by side panicked: {p}"))),
        Ok(Err(e)) => Ok(Some(format!("reading side by side refused: {e}"))),
        Ok(Ok(r)) => r.map(|_| None),
    }
}

/// the columns of a branch that can be read as a structure
fn structure_of(below: &[Node]) -> Option<Vec<(Col, Option<Col>)>> {
    below
        .iter()
        .map(|n| match n {
            Node::Col(c, of) if !c.jagged() && !matches!(c.kind, Kind::Text | Kind::Vector) && !(c.offs && c.kind != Kind::Plain) => {
                Some((c.clone(), of.clone()))
            }
            _ => None,
        })
        .collect()
}
/// the rows of the branches above columns of fixed sizes, which are read as
/// structures; Ok(Some) is a loud failure
fn structs(t: &ReaderTree, m: &Made, v: &[Node]) -> Res<Option<String>> {
    for n in v {
        let Node::Up(name, below) = n else { continue };
        if let Some(p) = structs(t, m, below)? {
            return Ok(Some(p));
        }
        let Some(cols) = structure_of(below) else { continue };
        let mut at = 0;
        let r = guard(|| -> Res<()> {
            let size: usize = cols.iter().map(|c| want(m, c, 0).len()).sum();
            let it = t.branch(name).unwrap().get_basket(|r| {
                let v: Vec<u8> = (0..size).map(|_| r.read_u8().expect("the row is too short")).collect();
                (v, r.read_u8().is_ok())
            });
            for (got, more) in it {
                if at >= m.rows {
                    viol!("C25/structure", "branch {name:?} as a structure: row {at} delivered, there are only {}", m.rows);
                }
                let w: Vec<u8> = cols.iter().flat_map(|c| want(m, c, at)).collect();
                if got != w || more {
                    viol!("C25/structure", "branch {name:?} as a structure: row {at} is {}{} instead of {}", hex(&got), if more { " and more" } else { "" }, hex(&w));
                }
                at += 1;
            }
            if at < m.rows {
                viol!("C25/structure", "branch {name:?} as a structure ended after {at} of {} rows", m.rows);
            }
            Ok(())
        });
        match r {
            Err(p) => return Ok(Some(format!("branch {name:?} as a structure panicked at row {at}: {p}"))),
            Ok(r) => r?,
        }
    }
    Ok(None)
}

/// one reading of the file; the loud failures
fn session(path: &str, m: &Made, apis: u64) -> Res<Vec<Seen>> {
    simos::set_phase(1);
    let mut f = match guard(|| RootFile::open(path)) {
        Ok(Ok(f)) => f,
        Ok(Err(e)) => return Ok(vec![Seen::OpenErr(format!("{e:?}"))]),
        Err(p) => return Ok(vec![Seen::OpenPanic(p)]),
    };
    let mut keys: Vec<String> = f.keys_name().map(String::from).collect();
    keys.sort();
    if keys != rootmake::names(m) {
        viol!("C25/keys", "the file lists {keys:?} instead of {:?}", rootmake::names(m));
    }
    simos::set_phase(2);
    // what is there and is not a tree
    for (i, o) in OTHERS.iter().enumerate() {
        if m.others >> i & 1 == 1 {
            match guard(|| f.get_tree(o.1)) {
                Ok(Err(_)) => {}
                Ok(Ok(_)) => viol!("C25/not-a-tree", "get_tree({:?}) gave a tree, it is a {}", o.1, o.0),
                Err(p) => viol!("C25/not-a-tree", "get_tree({:?}) panicked, it is a {}: {p}", o.1, o.0),
            }
        }
    }
    let t = match guard(|| f.get_tree(&m.tree)) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return Ok(vec![Seen::TreeErr(m.tree.clone(), format!("{e:?}"))]),
        Err(p) => return Ok(vec![Seen::TreePanic(m.tree.clone(), p)]),
    };
    let nodes = rootmake::nodes(&m.cols);
    let mut cols = vec![];
    expected(&nodes, &mut cols);
    if t.entries() != m.rows as i64 {
        viol!("C25/entries", "the tree reports {} entries instead of {}", t.entries(), m.rows);
    }
    let all = t.branches_r();
    let mut flat = vec![];
    flatten(&nodes, &mut flat);
    let names: Vec<&str> = all.iter().map(|b| b.name()).collect();
    if names != flat {
        viol!("C25/branches", "the tree has the branches {names:?} instead of {flat:?}");
    }
    structure(&t, t.branches().collect(), &all, &nodes, "the tree")?;
    if let Some(b) = t.branch("no such branch") {
        viol!("C25/lookup", "a branch that is not there is found: {:?}", b.name());
    }
    simos::set_phase(3);
    let mut out = vec![];
    for (k, c) in cols.iter().enumerate() {
        let b = columns(&t)[k];
        if b.entries() != m.rows as i64 {
            viol!("C25/entries", "{} reports {} entries instead of {}", about(&c.0), b.entries(), m.rows);
        }
        let ty = match guard(|| b.interpretation()) {
            Ok(t) => t,
            Err(p) => viol!("C25/type", "{}: interpretation panicked: {p}", about(&c.0)),
        };
        if ty != rust_type(&c.0) {
            viol!("C25/type", "{} is presented as {ty} instead of {}", about(&c.0), rust_type(&c.0));
        }
        if let Some(p) = column(&t, k, m, c, api_of(apis + k as u64))? {
            out.push(Seen::Loud(p));
        }
    }
    if let Some(p) = together(&t, m, &cols, apis + 1)? {
        out.push(Seen::Loud(p));
    }
    if let Some(p) = structs(&t, m, &nodes)? {
        out.push(Seen::Loud(p));
    }
    simos::set_phase(0);
    if out.is_empty() {
        out.push(Seen::Complete);
    }
    Ok(out)
}

fn gen_col(r: &mut Rng, i: u64, rows: u64) -> Col {
    let kind = KINDS[r.below(KINDS.len() as u64) as usize].1;
    let mut ty = r.pick(PRIMS).to_string();
    // what the library refuses to read, loudly
    let member = matches!(kind, Kind::Member | Kind::MemberFixed | Kind::MemberJagged);
    if ty == "bool" && (member || kind == Kind::Vector) {
        ty = "u16".into();
    }
    let mode = match kind {
        Kind::Text | Kind::Vector => r.below(8) + 8 * *r.pick(&[0u64, 0, 1, 2, 3, 4, 7]),
        _ => r.below(8),
    };
    Col {
        name: format!("{}{i}", ["x", "hits", "a_b", "px"][r.below(4) as usize]),
        kind,
        ty,
        lens: r.below(9),
        mode,
        seed: r.seed(),
        per: match r.below(4) {
            0 => 0,
            1 => r.range(1, 8),
            2 => r.range(1, 60),
            _ => r.range(1, rows.max(1)),
        },
        embed: r.below(3) == 0,
        offs: r.below(6) == 0 && !matches!(kind, Kind::Member | Kind::MemberFixed),
        deep: if r.below(3) == 0 || kind == Kind::Vector { [0, 0] } else { [r.below(3), r.below(3)] },
    }
}

pub fn gen_made(r: &mut Rng) -> Made {
    let rows = match r.below(8) {
        0 => r.below(3),
        1..=4 => r.range(1, 40),
        5 | 6 => r.range(1, 400),
        _ => r.range(400, 3000),
    };
    let n = r.range(1, 5);
    let big = r.below(2) == 0;
    Made {
        tree: r.pick(&["t", "Events", "ntuple_1", "a tree"]).to_string(),
        rows,
        cols: (0..n).map(|i| gen_col(r, i, rows)).collect(),
        tv: *r.pick(TREES) as i16,
        bv: *r.pick(BRANCHES) as i16,
        big,
        zip: *r.pick(&[0u64, 0, 60, 100]),
        codec: r.below(4),
        block: *r.pick(&[0xffffffu64, 0xffffff, 200, 4096]),
        gaps: r.below(3) == 0,
        free: r.below(2) == 0,
        infos: r.below(2) == 0,
        others: if r.below(2) == 0 { 0 } else { r.below(8 * OLD) },
        seed: r.seed(),
    }
}

pub struct C25;
impl Prop for C25 {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 8000, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 1_000_000, wall: 780, cpu: 60 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, t: Tier) -> J {
        let m = gen_made(r);
        let fault = idx % 3 == 2;
        J::obj()
            .set("made", m.to_j())
            .set("path", "/simfs/f.root")
            .set("apis", r.below(3))
            .set("mode", if fault { "fault" } else { "exact" })
            .set("points", if !fault { 0u64 } else if t == Tier::Quick { 10 } else { 30 })
            .set("pseed", r.seed())
            .set("io", if r.below(2) == 0 { gen_io(r) } else { no_io() })
            .set("rand_seed", r.seed())
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        let m = Made::of(case.get("made"));
        let path = path_of(case);
        let image = rootmake::make(&m);
        cx.boot(&cfg);
        path_of(case);
        simos::put_file(&path, &image);
        for c in &m.cols {
            cx.probe(&format!("columns: {}", KINDS.iter().find(|k| k.1 == c.kind).unwrap().0));
            if c.baskets(m.rows).len() > 1 {
                cx.probe("columns of several baskets");
                if c.embed {
                    cx.probe("baskets on disk before one inside the tree");
                }
            }
            if c.deep[0] > 0 {
                cx.probe(if c.deep[1] > 0 { "columns below branches of branches" } else { "columns below a branch" });
            }
            if c.embed {
                cx.probe("baskets inside the tree");
            }
            if c.jagged() {
                let total: u64 = (0..m.rows).map(|i| c.row_len(m.rows, i)).sum();
                if total == m.rows && m.rows > 1 {
                    cx.probe("as many array elements as rows");
                }
            }
        }
        fn any(v: &[Node]) -> bool {
            v.iter().any(|n| matches!(n, Node::Up(_, b) if structure_of(b).is_some() || any(b)))
        }
        if any(&rootmake::nodes(&m.cols)) {
            cx.probe("branches read as structures");
        }
        if m.others % OLD > 0 {
            cx.probe("objects of other classes beside the tree");
        }
        if m.others & STALE > 0 && m.bv >= 10 {
            cx.probe("left-overs in unused slots for baskets");
        }
        if m.others & OLD > 0 {
            cx.probe("an older version of the tree");
        }
        if m.zip > 0 {
            cx.probe("compressed files");
        }
        cx.probe(&format!("tree version {}", m.tv));
        cx.probe(&format!("branch version {}", m.bv));
        let apis = case.u("apis");
        match session(&path, &m, apis)?.as_slice() {
            [Seen::Complete] => {}
            o => viol!("C25/read-failed", "a well-formed file is not read: {o:?}"),
        }
        if case.s("mode") != "fault" {
            return Ok(());
        }
        let cen = census(&[1, 2, 3], RCLASSES);
        let mut r = Rng::new(case.u("pseed"));
        let plans: Vec<Vec<Fault>> = match faults_of(case) {
            Some(f) => vec![f],
            None => points(&mut r, &cen, case.u("points") as usize)
                .into_iter()
                .map(|(phase, class, nth)| {
                    let mut kind = error_kind(&mut r, class);
                    let persist = r.below(2) == 0;
                    if r.below(3) == 0 {
                        kind = Trouble::Trunc(Some(r.below(image.len() as u64 + 1)));
                    }
                    vec![Fault { phase, class, nth, persist: persist && !matches!(kind, Trouble::Trunc(_)), kind }]
                })
                .collect(),
        };
        for faults in plans {
            cx.boot(&Config { faults: faults.clone(), ..cfg.clone() });
            path_of(case);
            simos::put_file(&path, &image);
            let small = with_faults(case, &faults);
            let mut look = || -> Res<()> {
                for s in session(&path, &m, apis)? {
                    match s {
                        Seen::Complete => cx.probe("fault: complete data"),
                        Seen::Loud(_) => cx.probe("fault: iteration failed loudly"),
                        Seen::OpenErr(_) => cx.probe("fault: error from open"),
                        Seen::TreeErr(..) => cx.probe("fault: error from get_tree"),
                        Seen::OpenPanic(p) => viol!("C25/open-panic", "open panicked: {p}"),
                        Seen::TreePanic(_, p) => viol!("C25/get-tree-panic", "get_tree panicked: {p}"),
                    }
                }
                Ok(())
            };
            look().map_err(|mut v| {
                v.msg = format!("{} (fault {})", v.msg, small.get("faults"));
                v.narrowed = Some(small);
                v
            })?;
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one case makes a file in the layout of ROOT or Geant4 (tree versions 5 to 20, branch versions 6 to 13, 32 and 64 bit positions, plain, fixed, two-dimensional and variable-length columns with counters, strings, vectors, members of split classes; several baskets, some inside the tree, with and without offset tables, plain or compressed) and reads it through all interfaces under split and interrupted reads, column by column and side by side; then again with failing reads or a file cut short; non-trivial if a fault or short transfer occurred"
    }
}
