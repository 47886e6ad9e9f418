//! C12: the on-disk bookkeeping of a closed file, read by an independent parser.
use crate::engine::{cfg_of, gen_io, guard, Cx, Plan, Prop, Res, Tier};
use crate::item::{self, Item};
use crate::json::J;
use crate::rng::Rng;
use crate::rootfmt as fmt;
use crate::simos;
use crate::viol;
use crate::with_type;
use crate::world::*;
use oxyroot::RootFile;
use std::collections::BTreeMap;

/// what the parser is to find for one branch: bytes of item i as stored
fn stored<T: Item>(c: &Col, i: u64, out: &mut Vec<u8>) {
    let v = T::gen(c.seed, c.mode, i);
    if c.ty.starts_with("Vec<") {
        let mut e = vec![];
        v.encode(&mut e);
        out.extend_from_slice(&(0x4000_0000u32 | (e.len() as u32 + 2)).to_be_bytes());
        // the version of the vector is the writer's business
        out.extend_from_slice(&[0, 0]);
        out.extend_from_slice(&e);
    } else {
        v.encode(out);
    }
}
fn leaf_of(ty: &str) -> (&'static str, i64, i64, bool) {
    let (el, n) = match ty.strip_prefix('[') {
        Some(x) => {
            let (a, b) = x.trim_end_matches(']').split_once(';').unwrap();
            (a, b.parse().unwrap())
        }
        None => (ty, 1),
    };
    match el {
        "i8" => ("TLeafB", 1, n, false),
        "u8" => ("TLeafB", 1, n, true),
        "i16" => ("TLeafS", 2, n, false),
        "u16" => ("TLeafS", 2, n, true),
        "i32" => ("TLeafI", 4, n, false),
        "u32" => ("TLeafI", 4, n, true),
        "i64" => ("TLeafL", 8, n, false),
        "u64" => ("TLeafL", 8, n, true),
        "f32" => ("TLeafF", 4, n, false),
        "f64" => ("TLeafD", 8, n, false),
        "bool" => ("TLeafO", 1, n, false),
        "String" => ("TLeafC", -1, -1, false),
        _ => ("TLeafElement", -1, -1, false),
    }
}

/// the bytes of a file on the simulated disk
struct Src<'a> {
    path: &'a str,
    len: u64,
}
impl Src<'_> {
    fn get(&self, off: u64, n: u64) -> Vec<u8> {
        let n = n.min(self.len.saturating_sub(off)) as usize;
        let mut v = vec![0u8; n];
        let k = simos::read_file_at(self.path, off, &mut v);
        v.truncate(k);
        v
    }
    fn key(&self, at: u64) -> fmt::R<fmt::Key> {
        match fmt::key(&self.get(at, 600), at) {
            Ok(k) => Ok(k),
            // long names
            Err(_) => fmt::key(&self.get(at, 200_000), at),
        }
    }
}

/// the file holds exactly `specs`, in this order
pub fn check_file(path: &str, specs: &[Spec], cx: &mut Cx) -> Res<()> {
    let d = Src { path, len: simos::file_len(path).unwrap_or(0) };
    let d = &d;
    macro_rules! get {
        ($e:expr, $class:literal, $($what:tt)*) => {
            match $e {
                Ok(v) => v,
                Err(m) => viol!(concat!("C12/", $class), "{}: {m}", format!($($what)*)),
            }
        };
    }
    let h = get!(fmt::header(&d.get(0, 100)), "header", "header");
    if h.end != d.len {
        viol!("C12/length", "the file has {} bytes and the header says it ends at {}", d.len, h.end);
    }
    if h.begin < 64 || h.begin > h.end {
        viol!("C12/header", "the first record is said to be at {}", h.begin);
    }
    // the records, one after the other
    let mut recs: BTreeMap<u64, fmt::Key> = BTreeMap::new();
    let mut at = h.begin;
    while at < h.end {
        let k = get!(d.key(at), "records", "record at {at}");
        if k.seek != at {
            viol!("C12/records", "the record at {at} ({} {:?}) says it is at {}", k.class, k.name, k.seek);
        }
        if k.nbytes != k.key_len + k.obj_len {
            viol!("C12/records", "the record at {at} ({} {:?}) has {} bytes, key {} and object {}", k.class, k.name, k.nbytes, k.key_len, k.obj_len);
        }
        if k.class != "TBasket" && k.head != k.key_len {
            viol!("C12/records", "the key at {at} ({} {:?}) takes {} bytes and says {}", k.class, k.name, k.head, k.key_len);
        }
        at += k.nbytes;
        recs.insert(k.at, k);
    }
    if at != h.end {
        viol!("C12/records", "the last record ends at {at}, the file at {}", h.end);
    }
    let rec = |at: u64, nbytes: u64, class: &str, what: &str| -> Res<fmt::Key> {
        match recs.get(&at) {
            None => viol!("C12/pointers", "no record starts at {at}, where the {what} is said to be"),
            Some(k) if k.nbytes != nbytes => viol!("C12/pointers", "the {what} is said to have {nbytes} bytes and has {}", k.nbytes),
            Some(k) if k.class != class => viol!("C12/pointers", "the {what} at {at} is a {}", k.class),
            Some(k) => Ok(k.clone()),
        }
    };
    let body = |k: &fmt::Key| d.get(k.at + k.key_len, k.nbytes - k.key_len);
    // the directory
    let top = match recs.get(&h.begin) {
        Some(k) => k.clone(),
        None => viol!("C12/records", "a file without records"),
    };
    if h.nbytes_name < top.key_len || h.nbytes_name > top.nbytes {
        viol!("C12/directory", "the directory is said to be {} bytes into a record of {}", h.nbytes_name, top.nbytes);
    }
    let dir = get!(fmt::dir(&d.get(h.begin + h.nbytes_name, top.nbytes - h.nbytes_name)), "directory", "directory");
    if dir.nbytes_name != h.nbytes_name || dir.seek_dir != h.begin || dir.seek_parent != 0 {
        viol!("C12/directory", "the directory says name {} position {} parent {}, the header name {} position {}", dir.nbytes_name, dir.seek_dir, dir.seek_parent, h.nbytes_name, h.begin);
    }
    for k in recs.values() {
        if k.pdir != h.begin && k.at != h.begin {
            viol!("C12/records", "the record at {} says its directory is at {}", k.at, k.pdir);
        }
    }
    // free list
    let fk = rec(h.seek_free, h.nbytes_free, &top.class, "free list")?;
    let free = get!(fmt::free_list(&body(&fk)), "free-list", "free list");
    if free.len() as i64 != h.nfree {
        viol!("C12/free-list", "the header counts {} free segments and there are {}", h.nfree, free.len());
    }
    if free.len() != 1 || free[0].0 != h.end || free[0].1 <= free[0].0 {
        viol!("C12/free-list", "the free segments are {free:?} in a file of {} bytes", h.end);
    }
    // streamers
    let sk = rec(h.seek_info, h.nbytes_info, "TList", "streamer list")?;
    let streamers = get!(fmt::streamers(&body(&sk), sk.key_len), "streamers", "streamer list");
    for (i, s) in streamers.iter().enumerate() {
        if streamers[..i].iter().any(|o| o == s) {
            viol!("C12/streamers", "the streamer of {s:?} is listed twice");
        }
    }
    // keys
    let kk = rec(dir.seek_keys, dir.nbytes_keys, "TDirectory", "key list")?;
    let kb = body(&kk);
    let mut c = fmt::Cur::new(&kb, 0);
    let n = get!(c.len("number of keys"), "keys", "key list");
    if n != specs.len() as u64 {
        viol!("C12/keys", "{n} keys for {} trees", specs.len());
    }
    let mut keys = vec![];
    for i in 0..n {
        let p = c.pos() as usize;
        let mut k = get!(fmt::key(&kb[p..], 0), "keys", "key {i}");
        get!(c.take(k.key_len as usize), "keys", "key {i}");
        k.at = k.seek;
        match recs.get(&k.seek) {
            Some(r) if *r == k => {}
            r => viol!("C12/keys", "the key list says {k:?}, the record is {r:?}"),
        }
        keys.push(k);
    }
    // the writer may leave room for one more 64-bit position
    if c.left() > if h.units == 8 { 8 } else { 0 } {
        viol!("C12/keys", "{} bytes behind the keys", c.left());
    }
    let mut owners: BTreeMap<u64, (usize, usize)> = BTreeMap::new();
    let mut cycles: BTreeMap<&str, i64> = BTreeMap::new();
    for (ti, (k, s)) in keys.iter().zip(specs).enumerate() {
        let cyc = cycles.entry(&s.name).or_insert(0);
        *cyc += 1;
        if k.class != "TTree" || k.name != s.name || k.cycle != *cyc {
            viol!("C12/keys", "key {ti} is {} {:?};{} instead of tree {:?};{cyc}", k.class, k.name, k.cycle, s.name);
        }
        let t = get!(fmt::tree(&body(k), k.key_len), "tree", "tree {ti} {:?}", s.name);
        if t.name != s.name || t.entries != s.entries() as i64 {
            viol!("C12/tree", "tree {ti} is {:?} with {} entries instead of {:?} with {}", t.name, t.entries, s.name, s.entries());
        }
        if t.branches.len() != s.cols.len() {
            viol!("C12/tree", "tree {ti} {:?} has {} branches instead of {}", s.name, t.branches.len(), s.cols.len());
        }
        let at: Vec<u64> = t.branches.iter().flat_map(|b| b.leaves.iter().map(|l| l.at)).collect();
        if at != t.leaf_refs {
            viol!("C12/tree", "the leaf list of tree {ti} refers to {:?}, the leaves are at {at:?}", t.leaf_refs);
        }
        for (bi, (b, col)) in t.branches.iter().zip(&s.cols).enumerate() {
            let what = format!("tree {ti} {:?} branch {bi} {:?} ({})", s.name, col.name, col.ty);
            check_branch(d, &recs, b, col, &what, cx)?;
            if b.class == "TBranchElement" && !streamers.iter().any(|x| x.0 == b.class_name) {
                viol!("C12/streamers", "{what}: the file has no streamer for {:?}", b.class_name);
            }
            for at in &b.seek[..b.write_basket as usize] {
                if let Some(o) = owners.insert(*at, (ti, bi)) {
                    viol!("C12/baskets", "the basket at {at} belongs to {o:?} and to {:?}", (ti, bi));
                }
            }
        }
    }
    for k in recs.values() {
        if k.class == "TBasket" && !owners.contains_key(&k.at) {
            viol!("C12/baskets", "the basket at {} ({:?}) belongs to no branch", k.at, k.name);
        }
    }
    let known = 4 + keys.len() + owners.len();
    if recs.len() != known {
        viol!("C12/records", "{} records, {known} of them accounted for", recs.len());
    }
    Ok(())
}

fn check_branch(d: &Src, recs: &BTreeMap<u64, fmt::Key>, b: &fmt::Branch, col: &Col, what: &str, cx: &mut Cx) -> Res<()> {
    if b.name != col.name || b.entries != col.n as i64 || b.entry_number != col.n as i64 || b.first_entry != 0 {
        viol!("C12/branch", "{what}: {:?} with {} entries (number {}, first {}) instead of {}", b.name, b.entries, b.entry_number, b.first_entry, col.n);
    }
    let var = item::is_var(&col.ty);
    if (b.offset_len > 0) != var {
        viol!("C12/branch", "{what}: entry_offset_len is {}", b.offset_len);
    }
    if b.class != if col.ty.starts_with("Vec<") { "TBranchElement" } else { "TBranch" } {
        viol!("C12/branch", "{what}: is a {}", b.class);
    }
    if b.leaves.len() != 1 {
        viol!("C12/branch", "{what}: {} leaves", b.leaves.len());
    }
    let l = &b.leaves[0];
    let (lc, et, ln, un) = leaf_of(&col.ty);
    if l.class != lc || (et >= 0 && (l.etype != et || l.len != ln || l.unsigned != un)) || l.name != col.name {
        viol!("C12/leaf", "{what}: the leaf is {l:?}");
    }
    let n = b.write_basket as usize;
    if b.max_baskets <= b.write_basket {
        viol!("C12/tables", "{what}: {n} baskets in tables of {}", b.max_baskets);
    }
    if b.entry[0] != 0 || b.entry[n] != col.n {
        viol!("C12/tables", "{what}: first items of the baskets {:?} for {} items", &b.entry[..=n], col.n);
    }
    let (mut tot, mut zip) = (0i64, 0i64);
    let mut i = 0u64;
    let mut buf: Vec<u8> = vec![];
    for k in 0..n {
        let at = b.seek[k];
        let r = match recs.get(&at) {
            Some(r) if r.class == "TBasket" => r,
            r => viol!("C12/tables", "{what}: basket {k} is said to be at {at}, where {r:?} is"),
        };
        if r.nbytes != b.bytes[k] {
            viol!("C12/tables", "{what}: basket {k} is said to have {} bytes and has {}", b.bytes[k], r.nbytes);
        }
        let bk = match fmt::basket(&d.get(at, r.nbytes.min(100_000)), 0) {
            Ok(x) => x,
            Err(m) => viol!("C12/basket", "{what}: basket {k}: {m}"),
        };
        if bk.key.name != col.name {
            viol!("C12/basket", "{what}: basket {k} is named {:?}", bk.key.name);
        }
        if b.entry[k] != i || b.entry[k + 1] != i + bk.nev {
            viol!("C12/tables", "{what}: basket {k} has items {i} to {}, the table says {} to {}", i + bk.nev, b.entry[k], b.entry[k + 1]);
        }
        if bk.last < bk.key.key_len || bk.last > r.nbytes {
            viol!("C12/basket", "{what}: basket {k} has its items end at {} of {}", bk.last, r.nbytes);
        }
        let data = &d.get(at + bk.key.key_len, bk.last - bk.key.key_len)[..];
        let rest = &d.get(at + bk.last, r.nbytes - bk.last)[..];
        // the items
        let mut pos = vec![];
        let mut p = 0usize;
        for q in 0..bk.nev {
            buf.clear();
            with_type!(col.ty.as_str(), T => stored::<T>(col, i + q, &mut buf));
            pos.push(p as u64 + bk.key.key_len);
            let have = data.get(p..p + buf.len());
            let same = match have {
                Some(h) if col.ty.starts_with("Vec<") => h[..4] == buf[..4] && h[6..] == buf[6..],
                Some(h) => *h == buf[..],
                None => false,
            };
            if !same {
                let h = have.unwrap_or(&data[p.min(data.len())..]);
                viol!("C12/items", "{what}: item {} in basket {k} is stored as {:02x?}.. and should be {:02x?}..", i + q, &h[..h.len().min(24)], &buf[..buf.len().min(24)]);
            }
            p += buf.len();
        }
        if p != data.len() {
            viol!("C12/items", "{what}: basket {k} has {} bytes of items instead of {p}", data.len());
        }
        if var {
            let mut c = fmt::Cur::new(rest, 0);
            let want = bk.nev + 1;
            if c.u32() != Ok(want) || rest.len() as u64 != 4 + 4 * want {
                viol!("C12/offsets", "{what}: basket {k}: {} bytes of entry offsets for {} items", rest.len(), bk.nev);
            }
            for (q, p) in pos.iter().enumerate() {
                if c.u32() != Ok(*p) {
                    viol!("C12/offsets", "{what}: basket {k}: entry offset {q} is not {p}");
                }
            }
            if bk.nev_size <= bk.nev as i64 {
                viol!("C12/basket", "{what}: basket {k}: room for {} entry offsets and {} items", bk.nev_size, bk.nev);
            }
            cx.probe("baskets with entry offsets");
        } else {
            if !rest.is_empty() {
                viol!("C12/basket", "{what}: basket {k}: {} bytes behind the items", rest.len());
            }
            if bk.nev > 0 && bk.nev_size != item::type_size(&col.ty) as i64 {
                viol!("C12/basket", "{what}: basket {k}: items of {} bytes are said to have {}", item::type_size(&col.ty), bk.nev_size);
            }
            cx.probe("baskets of fixed-size items");
        }
        i += bk.nev;
        tot += (bk.key.key_len + bk.key.obj_len) as i64;
        zip += bk.key.nbytes as i64;
    }
    if b.tot_bytes != tot || b.zip_bytes != zip {
        viol!("C12/tables", "{what}: {} bytes ({} on disk) counted, {tot} ({zip}) there", b.tot_bytes, b.zip_bytes);
    }
    Ok(())
}

pub struct C12;
impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 22000, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 500_000, wall: 780, cpu: 90 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> J {
        let o = if idx % 16 == 15 { LARGE } else if idx % 8 > 4 { MEDIUM } else { SMALL };
        let n = match r.below(12) {
            0 => 0,
            1..=6 => 1,
            7..=10 => r.range(2, 6),
            _ => r.range(6, 30),
        };
        let o = if n > 6 { GenOpt { col_bytes: 2000, max_cols: 2, ..SMALL } } else { o };
        let mut trees: Vec<Spec> = (0..n).map(|_| gen_spec(r, &o)).collect();
        if n > 1 && r.below(2) == 0 {
            let name = trees[0].name.clone();
            for s in trees.iter_mut().skip(1) {
                if r.below(2) == 0 {
                    s.name = name.clone();
                }
            }
        }
        J::obj()
            .set("trees", specs_j(&trees))
            .set("path", gen_path(r))
            .set("over", if r.below(3) == 0 { r.below(3_000_000) } else { 0 })
            .set("two", r.below(4) == 0)
            .set("io", gen_io(r))
            .set("rand_seed", r.seed())
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        cx.boot(&cfg_of(case));
        let specs = specs_of(case);
        note_specs(cx, &specs);
        let path = path_of(case);
        if case.u("over") > 0 {
            // what was there before, longer or shorter
            simos::put_file(&path, &vec![0xa5; case.u("over") as usize]);
            cx.probe("an old file of the name");
        }
        let mut files: Vec<(String, Vec<Spec>)> = vec![(path, vec![])];
        if case.b("two") {
            files.push(("/simfs/second.root".into(), vec![]));
            cx.probe("two files written alternately");
        }
        let mut w = vec![];
        for (p, _) in &files {
            match guard(|| RootFile::create(p)) {
                Ok(Ok(f)) => w.push(f),
                e => viol!("C12/write-failed", "create: {:?}", e.map(|r| r.err())),
            }
        }
        for (i, s) in specs.iter().enumerate() {
            let k = i % w.len();
            match write_into(&mut w[k], std::slice::from_ref(s)) {
                WOut::Done => files[k].1.push(s.clone()),
                o => viol!("C12/write-failed", "tree {i} {:?}: {o:?}", s.name),
            }
        }
        for f in w.iter_mut() {
            match guard(|| f.close()) {
                Ok(Ok(())) => {}
                e => viol!("C12/write-failed", "close: {e:?}"),
            }
        }
        // as close left it; the writers are still there
        for (p, specs) in &files {
            if simos::file_len(p).is_none() {
                viol!("C12/length", "there is no file {p}");
            }
            check_file(p, specs, cx)?;
        }
        drop(w);
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one case writes a sequence of trees (new and repeated names, one or two files alternately, over old contents) and has the bytes on the simulated disk parsed by an independent reader of the format; non-trivial if calls were split or interrupted"
    }
}
