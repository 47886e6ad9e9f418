//! C18: files that outgrow 2 GB, on a sparse disk. The position at which a chosen
//! record of the file crosses a format limit is set exactly: a first, small run
//! with the same layout tells where the records are.
use crate::engine::{cfg_of, gen_io, Cx, Plan, Prop, Res, Tier, Viol};
use crate::json::J;
use crate::rng::Rng;
use crate::rootfmt as fmt;
use crate::simos;
use crate::viol;
use crate::world::*;

/// where ROOT switches to the large format, and the limits of signed and unsigned 32 bits
const LIMITS: [u64; 3] = [2_000_000_000, 1 << 31, 1 << 32];
const SMALL_FILL: u64 = 40_000;
const ITEM: u64 = 6 << 20;

fn filler(name: &str, n: u64, total: u64) -> Col {
    let (base, rem) = (total / n, total % n);
    Col { name: name.into(), ty: "String".into(), n, mode: 803, seed: base << 16 | rem }
}
fn with_fill(case: &J, total: u64) -> Vec<Spec> {
    let mut specs = specs_of(case);
    if specs.is_empty() {
        specs.push(Spec { name: "t".into(), cols: vec![] });
    }
    let t = case.u("fill_tree") as usize % specs.len();
    let at = case.u("fill_col") as usize % (specs[t].cols.len() + 1);
    let n = case.u("fill_n").max(1);
    specs[t].cols.insert(at, filler("fill", n, total));
    specs
}

pub struct C18;
impl Prop for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 64, wall: 100, cpu: 200 },
            Tier::Thorough => Plan { cases: 2000, wall: 780, cpu: 300 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, t: Tier) -> J {
        let items = match t {
            Tier::Quick => idx == 21 || idx == 53,
            Tier::Thorough => idx % 160 == 21 || idx % 160 == 101,
        };
        if items {
            // one item at the limit of what a byte count, or a record, can say
            let (ty, lim) = [("Vec<u8>", 1u64 << 30), ("String", 1 << 31), ("String", 1 << 30), ("Vec<u8>", 1 << 31)][((idx / 32) as usize + (idx / 160) as usize) % 4];
            let len = match r.below(4) {
                0 => lim - 6 - r.below(120),
                1 => lim - r.below(8),
                2 => lim + r.below(200),
                _ => lim - 30 + r.below(60),
            };
            return J::obj()
                .set("kind", "item")
                .set("trees", specs_j(&[gen_spec(r, &SMALL)]))
                .set("fill_col", r.below(4))
                .set("item_ty", ty)
                .set("item_len", len)
                .set("io", gen_io(r))
                .set("rand_seed", r.seed());
        }
        let trees: Vec<Spec> = (0..r.range(1, 4))
            .map(|_| {
                let o = if r.below(4) == 0 { MEDIUM } else { SMALL };
                gen_spec(r, &o)
            })
            .collect();
        let far = match t {
            Tier::Quick => idx % 16 == 7,
            Tier::Thorough => idx % 6 == 5,
        };
        let lim = if far { 2 } else { (idx % 2) as usize };
        let rec = match r.below(3) {
            // one of the last records: key list, streamers, free list, end
            0 => 1_000_000 + r.below(4),
            _ => r.below(1000),
        };
        let delta = match r.below(5) {
            0 => 0,
            1 => 1,
            2 => -1,
            3 => -(r.range(1, 200) as i64),
            _ => -(r.range(1, 60_000) as i64),
        };
        // now and then more baskets than 16 bits can count
        let fill_n = match idx % 32 {
            4 => (1 << 15) + r.range(0, 12) - 6,
            12 => 33_000 + r.below(1000),
            _ => (LIMITS[lim] / ITEM) + r.range(1, 8),
        };
        let mut j = J::obj()
            .set("trees", specs_j(&trees))
            .set("fill_tree", r.below(4))
            .set("fill_col", r.below(4))
            .set("fill_n", fill_n)
            .set("limit", LIMITS[lim])
            .set("rec", rec)
            .set("delta", delta)
            .set("io", gen_io(r))
            .set("rand_seed", r.seed());
        if r.below(6) == 0 {
            // the disk is full somewhere behind
            j = j.set("disk_free", LIMITS[lim] + r.below(200_000));
        }
        j
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let path = "/simfs/f.root";
        let mut cfg = cfg_of(case);
        if case.s("kind") == "item" {
            let mut specs = specs_of(case);
            if specs.is_empty() {
                specs.push(Spec { name: "t".into(), cols: vec![] });
            }
            let at = case.u("fill_col") as usize % (specs[0].cols.len() + 1);
            let ty = if case.s("item_ty") == "String" { "String" } else { "Vec<u8>" };
            let len = case.u("item_len").min(3 << 30);
            specs[0].cols.insert(at, Col { name: "huge".into(), ty: ty.into(), n: 1, mode: 803, seed: len << 16 });
            cfg.budget = 40_000_000;
            cx.boot(&cfg);
            match write_file(path, &specs) {
                WOut::Done => cx.probe(&format!("{ty} items near a limit, accepted")),
                WOut::Err(..) if len + 200 > 1 << 30 => {
                    cx.probe(&format!("{ty} items near a limit, refused with an error"));
                    return Ok(());
                }
                o => viol!("C18/item-write", "writing a {ty} of {len} bytes: {o:?}"),
            }
            return must_read(path, &specs, case.u("rand_seed") % 3, "C18").map_err(|v| Viol { msg: format!("{} (with a {ty} of {len} bytes)", v.msg), ..v });
        }
        let n = case.u("fill_n").max(1);
        let limit = match case.u("limit") {
            0 => LIMITS[0],
            l => l.min(LIMITS[2]),
        };
        // the layout, with small filler items that take a basket each
        let small_fill = if n > 1000 { 17_000 } else { SMALL_FILL };
        cx.boot(&crate::simos::Config { rand: cfg.rand, ..Default::default() });
        let small = with_fill(case, small_fill * n);
        must_write(path, &small, "C18")?;
        let d = simos::get_file(path).unwrap_or_default();
        let h = match fmt::header(&d) {
            Ok(h) => h,
            Err(m) => viol!("C18/layout", "the small file has no header: {m}"),
        };
        let mut starts = vec![];
        let mut last_fill = 0;
        let mut at = h.begin;
        while at < d.len() as u64 {
            let k = match fmt::key(&d[at as usize..], at) {
                Ok(k) => k,
                Err(m) => viol!("C18/layout", "record at {at} of the small file: {m}"),
            };
            if k.class == "TBasket" && k.name == "fill" && k.nbytes > small_fill {
                last_fill = starts.len();
            }
            starts.push((at, k.class.clone(), k.name.clone()));
            at += k.nbytes;
        }
        starts.push((at, "end".into(), String::new()));
        let rest = starts.len() - 1 - last_fill;
        let rec = case.u("rec");
        let pick = if rec >= 1_000_000 { starts.len() - 1 - ((rec - 1_000_000) as usize).min(rest - 1) } else { last_fill + 1 + rec as usize % rest };
        let (pos, class, name) = starts[pick].clone();
        let want = limit as i64 + case.i("delta").clamp(-1_000_000, 1_000_000);
        let extra = want - pos as i64;
        if extra < 0 {
            return Ok(());
        }
        drop(d);
        cx.probe(&format!("{} at the {} limit", if class == "TFile" || class == "end" { class.as_str() } else { &class }, limit));
        simos::with(|s| s.note(&format!("record {pick} of {} ({class} {name:?}) starts at {want}", starts.len())));
        // the same with the filler that takes it there
        let specs = with_fill(case, small_fill * n + extra as u64);
        cfg.budget = 40_000_000;
        let full = case.u("disk_free");
        if full > 0 {
            cfg.disk_free = Some(full);
        }
        cx.boot(&cfg);
        match write_file(path, &specs) {
            WOut::Done => {}
            WOut::Err(..) => {
                cx.probe(if full > 0 { "refused on a full disk" } else { "refused with an error" });
                return Ok(());
            }
            o => viol!("C18/panic", "writing {} bytes panicked: {o:?}", want),
        }
        let len = simos::file_len(path).unwrap_or(0);
        if full > 0 && len > full {
            viol!("C18/full-disk", "{len} bytes written to a disk of {full}");
        }
        if len > LIMITS[1] {
            cx.probe("files over 2 GiB");
        } else if len > LIMITS[0] {
            cx.probe("files over 2 GB");
        }
        simos::with(|s| {
            s.disk_free = None;
        });
        must_read(path, &specs, case.u("rand_seed") % 3, "C18").map_err(|v| Viol { msg: format!("{} (a file of {len} bytes, {class} {name:?} at {want})", v.msg), ..v })?;
        super::structure::check_file(path, &specs, cx).map_err(|v| Viol {
            class: v.class.replace("C12/", "C18/structure-"),
            msg: format!("{} (a file of {len} bytes, {class} {name:?} at {want})", v.msg),
            ..v
        })
    }
    fn memory(&self) -> u64 {
        20 << 30
    }
    fn rule(&self) -> &'static str {
        "one case writes several trees with a filler that puts the start of a chosen record at a chosen distance from 2 GB, 2 GiB or 4 GiB, on a sparse simulated disk that may be full, and has everything read back and the structure of the file checked by an independent reader; non-trivial if calls were split, interrupted or failed"
    }
}
