//! C21: compressed records, of one or many blocks, whole or damaged.
use super::reading::{few_trees, session, RCLASSES};
use crate::engine::{cfg_of, gen_io, no_io, Cx, Plan, Prop, Res, Tier, Viol};
use crate::faults::*;
use crate::json::J;
use crate::rng::Rng;
use crate::simos::{self, Config, Fault, Kind};
use crate::squeeze::{squeeze, Opts, Packed};
use crate::viol;
use crate::world::*;

/// one change of a compressed file, kept in the case so that it can be replayed
fn damage(r: &mut Rng, d: &[u8], recs: &[Packed]) -> J {
    let p = r.pick(recs);
    let b = *r.pick(&p.blocks);
    let next = p.blocks.iter().copied().find(|x| *x > b).unwrap_or(p.at + p.nbytes);
    let be4 = |at: u64| d[at as usize..at as usize + 4].to_vec();
    let le3 = |at: u64| d[at as usize] as u64 | (d[at as usize + 1] as u64) << 8 | (d[at as usize + 2] as u64) << 16;
    let set = |at: u64, v: Vec<u8>| J::obj().set("at", at).set("bytes", J::A(v.iter().map(|x| J::from(*x as u64)).collect()));
    let nudge = |r: &mut Rng, v: i64| match r.below(7) {
        0 => v + 1,
        1 => v - 1,
        2 => 0,
        3 => v * 2,
        4 => v / 2,
        5 => -v,
        _ => r.next() as i32 as i64,
    };
    match r.below(8) {
        // a bit of the payload
        0..=2 if next > b + 9 => {
            let at = b + 9 + r.below(next - b - 9);
            set(at, vec![d[at as usize] ^ (1 << r.below(8))])
        }
        // the codec
        3 => set(b, r.pick(&[&b"ZS"[..], b"CS", b"XX", b"ZL", b"XZ", b"L4", b"\0\0", b"zl"]).to_vec()),
        // one of the sizes of the block
        4 | 5 => {
            let at = b + 3 + 3 * r.below(2);
            let v = nudge(r, le3(at) as i64) as u64;
            set(at, vec![v as u8, (v >> 8) as u8, (v >> 16) as u8])
        }
        // the size of the record, or of the object
        6 | 0..=2 => {
            let key = if p.copies.is_empty() { p.at } else { p.copies[0] };
            let field = if r.below(3) == 0 { 0 } else { 6 };
            let old = be4(key + field);
            let mut v = nudge(r, i32::from_be_bytes([old[0], old[1], old[2], old[3]]) as i64) as i32;
            if field == 0 {
                // a negative size marks a gap, which is something else
                v &= i32::MAX;
            }
            set(key + field, v.to_be_bytes().to_vec())
        }
        // a run of zeros
        _ => {
            let at = b + r.below(next - b);
            let n = r.range(1, 64).min(next - at) as usize;
            set(at, vec![0; n])
        }
    }
}

pub struct C21;
impl Prop for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 3000, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 200_000, wall: 780, cpu: 60 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, t: Tier) -> J {
        let mut o = if idx % 4 == 3 { LARGE } else if idx % 4 == 2 { MEDIUM } else { SMALL };
        o.names = false;
        let natural = idx % 32 == 9;
        if natural {
            o = GenOpt { huge: true, ..MEDIUM };
        }
        let mut trees = few_trees(r, &o);
        if natural {
            // records that need several blocks of the largest size
            trees[0].cols.push(Col { name: "big".into(), ty: r.pick(&["String", "Vec<u8>", "Vec<i32>", "Vec<f64>"]).to_string(), n: r.range(2, 4), mode: 64 + r.below(8), seed: r.seed() });
        }
        let block = if natural { 0xffffff } else { *r.pick(&[0xffffffu64, 64, 200, 1000, 4096, 10_000, 31_990, 100_000]) };
        let mode = if natural { "exact" } else { *r.pick(&["exact", "exact", "fault", "damage", "damage"]) };
        let mut j = J::obj()
            .set("trees", specs_j(&trees))
            .set("path", "/simfs/f.root")
            .set("codec", r.below(4))
            .set("block", block)
            .set("share", *r.pick(&[100u64, 100, 70, 30]))
            .set("zseed", r.seed())
            .set("apis", r.below(3))
            .set("mode", mode)
            .set("points", if t == Tier::Quick { 16u64 } else { 40 })
            .set("pseed", r.seed())
            .set("io", if r.below(2) == 0 { gen_io(r) } else { no_io() })
            .set("rand_seed", r.seed());
        if mode == "exact" {
            j = j.set("points", 0u64);
        }
        j
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        let specs = specs_of(case);
        let path = path_of(case);
        cx.boot(&cfg);
        path_of(case);
        must_write(&path, &specs, "C21")?;
        let mut image = simos::get_file(&path).unwrap_or_default();
        let o = Opts { codec: case.u("codec"), block: case.u("block").max(16) as usize, share: case.u("share") };
        let recs = match squeeze(&mut image, &o, &mut Rng::new(case.u("zseed"))) {
            Ok(r) => r,
            Err(m) => viol!("C21/layout", "the written file cannot be taken apart: {m}"),
        };
        simos::put_file(&path, &image);
        for p in &recs {
            cx.probe(match (p.class.as_str(), p.blocks.len()) {
                ("TBasket", 1) => "baskets of one block",
                ("TBasket", _) => "baskets of several blocks",
                ("TTree", _) => "compressed trees",
                _ => "compressed streamer lists",
            });
        }
        simos::with(|s| s.apply(&cfg));
        let apis = case.u("apis");
        for k in 0..2 {
            match session(&path, &specs, apis + k, "C21")?.as_slice() {
                [Seen::Complete] => {}
                o => viol!("C21/read-failed", "a well-formed compressed file is not read: {o:?}"),
            }
        }
        if recs.is_empty() {
            return Ok(());
        }
        let mut r = Rng::new(case.u("pseed"));
        let n = case.u("points");
        if case.s("mode") == "fault" {
            let cen = census(&[1, 2, 3], RCLASSES);
            let plans: Vec<Vec<Fault>> = match faults_of(case) {
                Some(f) => vec![f],
                None => points(&mut r, &cen, n as usize)
                    .into_iter()
                    .map(|(phase, class, nth)| {
                        let mut kind = error_kind(&mut r, class);
                        let persist = r.below(2) == 0;
                        if r.below(3) == 0 {
                            kind = Kind::Trunc(Some(r.below(image.len() as u64 + 1)));
                        }
                        vec![Fault { phase, class, nth, persist: persist && !matches!(kind, Kind::Trunc(_)), kind }]
                    })
                    .collect(),
            };
            for faults in plans {
                cx.boot(&Config { faults: faults.clone(), ..cfg.clone() });
                path_of(case);
                simos::put_file(&path, &image);
                let small = with_faults(case, &faults);
                self.loud(&path, &specs, apis, cx, "fault").map_err(|mut v| {
                    v.msg = format!("{} (fault {})", v.msg, small.get("faults"));
                    v.narrowed = Some(small);
                    v
                })?;
            }
        } else if case.s("mode") == "damage" {
            let list: Vec<J> = match case.get("damage") {
                J::Null => (0..n).map(|_| damage(&mut r, &image, &recs)).collect(),
                j => vec![j.clone()],
            };
            for dm in list {
                let at = dm.u("at") as usize;
                let bytes = nums(&dm, "bytes");
                let mut img = image.clone();
                let end = (at + bytes.len()).min(img.len());
                for (k, p) in (at..end).enumerate() {
                    img[p] = bytes[k] as u8;
                }
                if img == image {
                    continue;
                }
                cx.boot(&cfg);
                path_of(case);
                simos::put_file(&path, &img);
                simos::with(|s| s.note(&format!("{dm}")));
                let small = case.clone().set("damage", dm.clone());
                self.loud(&path, &specs, apis, cx, "damage").map_err(|mut v| {
                    v.msg = format!("{} (damage {dm})", v.msg);
                    v.narrowed = Some(small);
                    v
                })?;
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one case writes trees, compresses a share of the records of the file (baskets, trees, streamers; zlib, lzma, LZ4 or mixed; blocks of 64 bytes to 16 MB) and reads the file through two interfaces under split and interrupted reads; then again with failing reads, or with the compressed records damaged (bits, codec tags, block sizes, record and object sizes, zeroed ranges): what is delivered must be right up to a loud failure, and opening and fetching must not panic; non-trivial if a fault or short transfer occurred or a record was damaged"
    }
}
impl C21 {
    fn loud(&self, path: &str, specs: &[Spec], apis: u64, cx: &mut Cx, what: &str) -> Res<()> {
        for s in session(path, specs, apis, "C21")? {
            match s {
                Seen::Complete => cx.probe(&format!("{what}: complete data")),
                Seen::Loud(_) => cx.probe(&format!("{what}: iteration failed loudly")),
                Seen::OpenErr(_) => cx.probe(&format!("{what}: error from open")),
                Seen::TreeErr(..) => cx.probe(&format!("{what}: error from get_tree")),
                Seen::OpenPanic(m) => return Err(Viol::new("C21/open-panic", format!("open panicked: {m}"))),
                Seen::TreePanic(t, m) => return Err(Viol::new("C21/get-tree-panic", format!("get_tree({t:?}) panicked: {m}"))),
            }
        }
        Ok(())
    }
}
