//! C26: bytes of a finished file changed on the disk.
use super::fixtures::{digests, tree_names};
use crate::engine::{cfg_of, gen_io, guard, no_io, Cx, Plan, Prop, Res, Tier, Viol};
use crate::json::J;
use crate::rng::Rng;
use crate::rootfmt as fmt;
use crate::rootmake::{self, Made};
use crate::simos;
use crate::viol;
use crate::world::*;
use oxyroot::RootFile;

const CAP: usize = 512 << 20;
const ITEMS: usize = 300_000;

pub struct C26;
impl Prop for C26 {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 6000, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 1_000_000, wall: 780, cpu: 60 },
        }
    }
    fn prepare(&self) {
        super::fixtures::load();
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> J {
        let j = J::obj().set("path", "/simfs/f.root").set("io", if r.below(4) == 0 { gen_io(r) } else { no_io() }).set("rand_seed", r.seed()).set("apis", r.below(3));
        let points = J::A((0..40).map(|_| point(r)).collect());
        let j = j.set("points", points);
        match idx % 3 {
            0 => j.set("source", "own").set("trees", specs_j(&(0..r.range(1, 3)).map(|_| gen_spec(r, &SMALL)).collect::<Vec<_>>())),
            1 => {
                let m = super::layouts::gen_made(r);
                j.set("source", "made").set("made", Made { zip: if r.below(3) == 0 { m.zip } else { 0 }, ..m }.to_j())
            }
            _ => j.set("source", "fixture").set("fixture", *r.pick(super::fixtures::SMALL_FILES)),
        }
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        let path = path_of(case);
        cx.boot(&cfg);
        path_of(case);
        let image = match case.s("source") {
            "own" => {
                must_write(&path, &specs_of(case), "C26")?;
                simos::get_file(&path).unwrap_or_default()
            }
            "made" => rootmake::make(&Made::of(case.get("made"))),
            _ => super::fixtures::bytes(case.s("fixture")).to_vec(),
        };
        let recs = records(&image);
        cx.boot(&cfg);
        path_of(case);
        simos::put_file(&path, &image);
        let healthy = match read_all(&path, case.u("apis"), cx)? {
            Some(v) => v,
            None => viol!("C26/healthy", "the file as it was written cannot be opened"),
        };
        for p in case.a("points") {
            let p: Vec<u64> = p.as_a().iter().map(|x| x.as_i().max(0) as u64).collect();
            if p.len() != 3 {
                continue;
            }
            let img = damage(&image, p[0], p[1], p[2]);
            let (Some(lo), Some(hi)) = ((0..img.len()).find(|i| img[*i] != image[*i]), (0..img.len()).rev().find(|i| img[*i] != image[*i])) else {
                continue;
            };
            cx.boot(&cfg);
            path_of(case);
            simos::put_file(&path, &img);
            simos::with(|s| *s.stats.fired.entry(KINDS[(p[0] as usize).min(6)].into()).or_insert(0) += 1);
            crate::alloc::set_cap(CAP);
            crate::alloc::reset_peak();
            let base = crate::alloc::current();
            let res = read_all(&path, case.u("apis"), cx);
            let peak = (crate::alloc::peak() - base).max(0) as usize;
            crate::alloc::set_cap(usize::MAX);
            let hit = recs.iter().find(|k| k.at <= lo as u64 && (hi as u64) < k.at + k.nbytes);
            let what = format!("bytes {lo}..={hi} changed, in {}", hit.map_or("no single record".to_string(), |k| format!("the {} {:?} at {}", k.class, k.name, k.at)));
            let narrow = |mut v: Viol| {
                v.msg = format!("{} ({what})", v.msg);
                v.narrowed = Some(case.clone().set("points", J::A(vec![J::A(p.iter().map(|x| J::I(*x as i64)).collect())])));
                v
            };
            let got = res.map_err(narrow)?;
            if peak > 64 * img.len() + (64 << 20) {
                return Err(narrow(Viol::new("C26/memory", format!("{peak} bytes were allocated for a file of {} bytes", img.len()))));
            }
            let Some(k) = hit else { continue };
            if case.s("source") == "own" && k.class == "TBasket" {
                cx.probe("one basket changed");
                contained(&healthy, got.as_deref(), k).map_err(narrow)?;
            } else if k.obj_len > k.nbytes - k.key_len && lo as u64 >= k.at + k.key_len {
                cx.probe("compressed data changed");
                detected(&healthy, got.as_deref()).map_err(narrow)?;
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "finished files (written by oxyroot, made after the layouts of ROOT and Geant4, and files of ROOT, uproot and others) with a bit, a byte, a word or a sector changed on the disk: open and get_tree answer or refuse, never panic; nothing in the file makes the process run away or allocate more than 64 times the file; a change within one uncompressed basket leaves every other branch as it was; a change within compressed data gives the values as they were or fails loudly"
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
}
const KINDS: [&str; 7] = ["bit flipped", "byte changed", "word changed", "sector zeroed", "sector misdirected", "word changed", "word changed"];
/// kind, place (as a fraction of 2^32) and what
fn point(r: &mut Rng) -> J {
    let place = match r.below(4) {
        0 => r.below(1 << 24),
        1 => (1 << 32) - 1 - r.below(1 << 30),
        _ => r.below(1 << 32),
    };
    J::A(vec![J::I(r.below(2 + 5) as i64), J::I(place as i64), J::I(r.below(1 << 32) as i64)])
}
fn damage(img: &[u8], kind: u64, place: u64, what: u64) -> Vec<u8> {
    let mut v = img.to_vec();
    let n = v.len() as u64;
    if n == 0 {
        return v;
    }
    let at = ((place & 0xffff_ffff) * n >> 32) as usize;
    match kind {
        0 => v[at] ^= 1 << (what % 8),
        1 => v[at] = [0, 1, 0x7f, 0x80, 0xff, v[at].wrapping_add(1), v[at].wrapping_sub(1), what as u8][(what >> 8) as usize % 8],
        2 | 5 | 6 => {
            let w = [2, 4, 4, 8][(what % 4) as usize];
            let end = (at + w).min(v.len());
            let old = v[at..end].iter().fold(0u64, |a, b| a << 8 | *b as u64);
            let top = 1u64 << (8 * (end - at) - 1);
            let x = [0, 1, u64::MAX, top, top - 1, old.wrapping_add(1), old.wrapping_sub(1), n, n - at as u64, 0x4000_0000 | old, what, old.wrapping_neg()][(what >> 8) as usize % 12];
            for (i, b) in v[at..end].iter_mut().rev().enumerate() {
                *b = (x >> (8 * i)) as u8;
            }
        }
        _ => {
            let a = at / 512 * 512;
            let e = (a + 512).min(v.len());
            let from = ((what & 0xffff_ffff) * n >> 32) as usize / 512 * 512;
            for i in 0..e - a {
                v[a + i] = if kind == 3 { 0 } else { img.get(from + i).copied().unwrap_or(0) };
            }
        }
    }
    v
}
/// the records of a file, as far as they follow one another
fn records(d: &[u8]) -> Vec<fmt::Key> {
    let mut v = vec![];
    let Ok(h) = fmt::header(d) else { return v };
    let mut at = h.begin as usize;
    while at + 4 <= d.len() {
        let n = i32::from_be_bytes([d[at], d[at + 1], d[at + 2], d[at + 3]]);
        if n < 0 {
            at += n.unsigned_abs() as usize;
            continue;
        }
        match fmt::key(&d[at..], at as u64) {
            Ok(k) if k.nbytes >= k.key_len => {
                at += k.nbytes as usize;
                v.push(k);
            }
            _ => break,
        }
    }
    v
}

/// what became of one branch
struct Column {
    tree: String,
    branch: String,
    about: String,
    items: Vec<u64>,
    whole: bool,
}
/// only the branch the basket `k` belongs to may be different
fn contained(healthy: &[Column], got: Option<&[Column]>, k: &fmt::Key) -> Res<()> {
    let Some(got) = got else { viol!("C26/contained", "the file can no longer be opened") };
    for (i, h) in healthy.iter().enumerate() {
        let Some(g) = got.get(i) else { viol!("C26/contained", "{:?}/{:?} is gone", h.tree, h.branch) };
        if (&g.tree, &g.branch, &g.about) != (&h.tree, &h.branch, &h.about) {
            viol!("C26/contained", "{:?}/{:?} ({}) became {:?}/{:?} ({})", h.tree, h.branch, h.about, g.tree, g.branch, g.about);
        }
        if h.branch != k.name && (g.whole != h.whole || g.items != h.items) {
            viol!("C26/contained", "{:?}/{:?} gave {} items (ended well: {}), {} before, the first different one is {:?}", h.tree, h.branch, g.items.len(), g.whole, h.items.len(), first_diff(g, h));
        }
    }
    Ok(())
}
/// what is read is right
fn detected(healthy: &[Column], got: Option<&[Column]>) -> Res<()> {
    for g in got.unwrap_or(&[]) {
        // columns below different branches may have the same name
        let same: Vec<&Column> = healthy.iter().filter(|h| (&h.tree, &h.branch, &h.about) == (&g.tree, &g.branch, &g.about)).collect();
        let right = |h: &&Column| g.items.len() <= h.items.len() && g.items == h.items[..g.items.len()] && (!g.whole || g.items.len() == h.items.len());
        if same.iter().any(right) {
            continue;
        }
        let Some(h) = same.first() else { viol!("C26/detected", "there was no {:?}/{:?} ({})", g.tree, g.branch, g.about) };
        viol!("C26/detected", "{:?}/{:?} silently gave {} items, {} before, the first different one is {:?}", h.tree, h.branch, g.items.len(), h.items.len(), first_diff(g, h));
    }
    Ok(())
}
fn first_diff(a: &Column, b: &Column) -> Option<usize> {
    a.items.iter().zip(&b.items).position(|(a, b)| a != b)
}

fn read_all(path: &str, apis: u64, cx: &mut Cx) -> Res<Option<Vec<Column>>> {
    let mut cols = vec![];
    let mut f = match guard(|| RootFile::open(path)) {
        Ok(Ok(f)) => f,
        Ok(Err(_)) => {
            cx.probe("refused by open");
            return Ok(None);
        }
        Err(m) => viol!("C26/open-panic", "open panicked: {m}"),
    };
    for n in tree_names(&f) {
        let t = match guard(|| f.get_tree(&n)) {
            Ok(Ok(t)) => t,
            Ok(Err(_)) => {
                cx.probe("refused by get_tree");
                continue;
            }
            Err(m) => viol!("C26/get-tree-panic", "get_tree({n:?}) panicked: {m}"),
        };
        for (i, b) in t.branches_r().into_iter().enumerate() {
            let about = guard(|| format!("{} as {} of {} entries and {} branches", b.item_type_name(), b.interpretation(), b.entries(), b.branches().count()));
            let Ok(about) = about else {
                cx.probe("not described");
                continue;
            };
            let mut col = Column { tree: n.clone(), branch: b.name().to_string(), about, items: vec![], whole: false };
            match guard(|| digests(b, apis + i as u64)) {
                Ok(Some(Ok(it))) => match guard(|| it.take(ITEMS).for_each(|x| col.items.push(x))) {
                    Ok(_) => {
                        cx.probe("iterated");
                        col.whole = true;
                    }
                    Err(_) => cx.probe("iteration failed loudly"),
                },
                Ok(Some(Err(_))) => cx.probe("refused by as_iter"),
                Ok(None) => cx.probe("unknown type"),
                Err(_) => cx.probe("iteration failed loudly"),
            }
            cols.push(col);
        }
    }
    Ok(Some(cols))
}
