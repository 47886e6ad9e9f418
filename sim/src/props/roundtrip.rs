//! C01: what is written and closed reads back exactly.
use crate::engine::{cfg_of, gen_io, Cx, Plan, Prop, Res, Tier};
use crate::json::J;
use crate::rng::Rng;
use crate::viol;
use crate::world::*;

pub struct C01;
impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 16000, wall: 60, cpu: 60 },
            Tier::Thorough => Plan { cases: 200_000, wall: 780, cpu: 60 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> J {
        let o = match idx % 16 {
            0..=7 => SMALL,
            8..=12 => MEDIUM,
            13 | 14 => LARGE,
            _ => GenOpt { huge: true, ..MEDIUM },
        };
        let o = GenOpt { names: r.below(3) == 0, ..o };
        let mut s = gen_spec(r, &o);
        if idx % 64 == 7 {
            // names that approach or exceed what a key can hold
            let long = |r: &mut Rng| format!("{}{}", "name of a name".repeat(*r.pick(&[500, 1100, 2250, 2330, 2340, 4600, 9000])), "x".repeat(r.range(0, 30) as usize));
            for c in s.cols.iter_mut() {
                c.n = c.n.min(3000);
            }
            let k = r.below(s.cols.len() as u64 + 1) as usize;
            match s.cols.get_mut(k) {
                Some(c) => c.name = long(r),
                None => s.name = long(r),
            }
        }
        J::obj().set("trees", specs_j(&[s])).set("path", gen_path(r).as_str()).set("apis", r.below(3)).set("io", gen_io(r)).set("rand_seed", r.seed())
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        cx.boot(&cfg_of(case));
        let specs = specs_of(case);
        let path = path_of(case);
        if specs.iter().any(|s| s.name.len() > 15_000 || s.cols.iter().any(|c| c.name.len() > 15_000)) {
            // too long for the format: may be refused, but not silently
            match write_file(&path, &specs) {
                WOut::Err(..) => {
                    cx.probe("overlong names refused with an error");
                    return Ok(());
                }
                WOut::Done => cx.probe("overlong names accepted"),
                o => viol!("C01/write-failed", "writing {path} failed: {o:?}"),
            }
        } else {
            must_write(&path, &specs, "C01")?;
        }
        note_specs(cx, &specs);
        must_read(&path, &specs, case.u("apis"), "C01")?;
        // and once more with another reading interface
        must_read(&path, &specs, case.u("apis") + 1, "C01")
    }
    fn rule(&self) -> &'static str {
        "one case is a random tree specification (types, lengths around buffer and basket limits, value styles, names), written, closed and read through two reading interfaces under seeded short transfers and EINTR; a run is non-trivial if at least one call was interrupted or split"
    }
}
