//! C23: the command line tools as programs on the simulated machine.
use crate::engine::{cfg_of, gen_io, guard, no_io, Cx, Plan, Prop, Res, Tier, Viol};
use crate::faults::*;
use crate::item::Item;
use crate::json::J;
use crate::props::fixtures;
use crate::rng::{hash_str, Rng};
use crate::simos::{self, Class, Config, Fault, Kind};
use crate::tools::{self, ToolOut};
use crate::world::*;
use crate::{viol, with_type};
use oxyroot::{Named, Object, ReaderTree, RootFile};

pub struct C23;
/// the calls of each tool are a phase of their own
fn phase(tool: &str) -> u32 {
    if tool == "ls" {
        7
    } else {
        8
    }
}
const CLASSES: &[Class] = &[Class::Open, Class::Read, Class::Seek, Class::Stat, Class::Write, Class::Dup];
const TOOLS: &[&str] = &["ls", "dump"];

/// what `ReaderTree::show` prints
fn table(t: &ReaderTree) -> String {
    let row = |a: &str, b: &str, c: &str| format!("{a:<30} | {b:<30} | {c:<30}\n");
    let rule = "-".repeat(31);
    let mut o = row("name", "typename", "interpretation") + &format!("{rule}+{rule}+{rule}\n");
    for b in t.branches_r() {
        let short: String = b.item_type_name().chars().take(30).collect();
        o += &row(b.name(), &short, &b.interpretation());
    }
    o
}
/// the whole output of a tool for a file that holds these trees (as the library
/// lists them, with the values of the model)
fn expected(tool: &str, path: &str, specs: &[Spec]) -> Res<String> {
    let mut o = format!("=== {:?} ===\n", std::path::Path::new(path));
    let got: Result<Result<String, Viol>, String> = guard(|| {
        let mut f = must_open(path, "C23")?;
        let keys: Vec<(String, String, String)> = f.keys().iter().map(|k| (k.class().to_string(), k.name().to_string(), k.title().to_string())).collect();
        for (class, name, title) in keys {
            let t = match f.get_tree(&name) {
                Ok(t) => t,
                Err(e) => viol!("C23/tree-failed", "get_tree({name:?}): {e:?}"),
            };
            if tool == "ls" {
                o += &format!("> {class} name='{name}' (title='{title}')\n> Data in {name}:\n");
                o += &table(&t);
                continue;
            }
            o += &format!(">>> tree: {name:?}\n");
            o += &table(&t);
            let Some(s) = specs.iter().rev().find(|s| s.name == name) else { viol!("C23/model", "unexpected tree {name:?}") };
            for i in 0..s.entries() {
                for c in &s.cols {
                    let v = if i >= c.n {
                        "None".to_string()
                    } else {
                        with_type!(c.ty.as_str(), T => format!("{:?}", <T as Item>::gen(c.seed, c.mode, i)))
                    };
                    o += &format!("[{i}][{}]: {v}\n", c.name);
                }
            }
        }
        Ok(std::mem::take(&mut o))
    });
    match got {
        Ok(r) => r,
        Err(m) => viol!("C23/read-failed", "reading the written file failed: {m}"),
    }
}

/// sets and maps come in no particular order: sorts what is in braces
fn canon(s: &str) -> String {
    fn element(b: &[u8], p: &mut usize, stop: &[u8]) -> Vec<u8> {
        let mut o = vec![];
        while *p < b.len() && !stop.contains(&b[*p]) {
            match b[*p] {
                b'"' => {
                    o.push(b'"');
                    *p += 1;
                    while *p < b.len() && b[*p] != b'"' {
                        if b[*p] == b'\\' && *p + 1 < b.len() {
                            o.push(b[*p]);
                            *p += 1;
                        }
                        o.push(b[*p]);
                        *p += 1;
                    }
                    o.push(b'"');
                    *p += 1;
                }
                c @ (b'{' | b'[') => {
                    let end = if c == b'{' { b'}' } else { b']' };
                    *p += 1;
                    let mut v = vec![];
                    while *p < b.len() && b[*p] != end {
                        v.push(element(b, p, &[b',', end]));
                        if *p < b.len() && b[*p] == b',' {
                            *p += 1;
                            if *p < b.len() && b[*p] == b' ' {
                                *p += 1;
                            }
                        }
                    }
                    *p += 1;
                    if c == b'{' {
                        v.sort();
                    }
                    o.push(c);
                    o.extend(v.join(&b", "[..]));
                    o.push(end);
                }
                c => {
                    o.push(c);
                    *p += 1;
                }
            }
        }
        o
    }
    let mut out = String::new();
    for l in s.split_inclusive('\n') {
        // only rows of data are taken apart
        match l.find("]: ") {
            Some(at) if l.contains('{') => {
                let b = l.as_bytes();
                let mut p = at + 3;
                out += &l[..p];
                out += &String::from_utf8_lossy(&element(b, &mut p, &[]));
            }
            _ => out += l,
        }
    }
    out
}

fn short(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    if c.len() > 160 {
        format!("{:?}…", c[..160].iter().collect::<String>())
    } else {
        format!("{s:?}")
    }
}
fn first_difference(a: &str, b: &str) -> String {
    let n = a.lines().zip(b.lines()).take_while(|(x, y)| x == y).count();
    format!("line {}: expected {}, printed {}", n + 1, short(a.lines().nth(n).unwrap_or("<end>")), short(b.lines().nth(n).unwrap_or("<end>")))
}
/// without faults: everything, and success
fn check_clean(tool: &str, o: &ToolOut, want: &str) -> Res<()> {
    if o.code != 0 {
        viol!("C23/failed", "oxyroot-{tool} ended with {} on a good file: {}", o.code, short(&o.err));
    }
    if o.out != want && canon(&o.out) != canon(want) {
        viol!("C23/output", "oxyroot-{tool} printed something else: {}", first_difference(want, &o.out));
    }
    Ok(())
}
/// with faults: nothing wrong, and success only if everything was printed
fn check_faulty(tool: &str, o: &ToolOut, want: &str, cx: &mut Cx) -> Res<()> {
    let (out, want) = (canon(&o.out), canon(want));
    if o.code >= 1000 {
        viol!("C23/killed", "oxyroot-{tool} was killed by signal {}", o.code - 1000);
    }
    if out == want {
        cx.probe(if o.code == 0 { "fault: complete output" } else { "fault: complete output and failure status" });
        return Ok(());
    }
    // the last line may be cut anywhere
    let whole = out.rfind('\n').map(|p| p + 1).unwrap_or(0);
    if !want.starts_with(&out[..whole]) || (!want.starts_with(&out) && !out[whole..].contains('{')) {
        viol!("C23/wrong-output", "oxyroot-{tool} printed something wrong: {}", first_difference(&want, &out));
    }
    if o.code == 0 {
        viol!("C23/silent", "oxyroot-{tool} reported success but printed only part: {} of {} lines", out.lines().count(), want.lines().count());
    }
    cx.probe("fault: part of the output and failure status");
    Ok(())
}

impl Prop for C23 {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn prepare(&self) {
        fixtures::load();
    }
    fn plan(&self, t: Tier) -> Plan {
        match t {
            Tier::Quick => Plan { cases: 3000, wall: 120, cpu: 120 },
            Tier::Thorough => Plan { cases: 60_000, wall: 780, cpu: 120 },
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, tier: Tier) -> J {
        let big = tier == Tier::Thorough && r.below(4) == 0;
        let mut j = J::obj();
        if idx % 6 == 5 {
            let f = if r.below(12) == 0 { fixtures::FILES[r.below(fixtures::FILES.len() as u64) as usize].0 } else { r.pick(fixtures::SMALL_FILES) };
            j = j.set("fixture", f);
        } else {
            let o = GenOpt { col_bytes: if big { 120_000 } else { 20_000 }, max_cols: 4, names: true, ragged: true, huge: false };
            let mut specs: Vec<Spec> = vec![];
            for _ in 0..r.range(1, 3) {
                let s = gen_spec(r, &o);
                if specs.iter().all(|x| x.name != s.name) {
                    specs.push(s);
                }
            }
            j = j.set("trees", specs_j(&specs));
        }
        let mode = match r.below(8) {
            0 => "missing",
            1 | 2 => "cut",
            3..=5 => "fault",
            _ => "clean",
        };
        j.set("path", gen_path(r).as_str())
            .set("mode", mode)
            .set("points", if mode == "fault" || mode == "cut" { if tier == Tier::Thorough { 24u64 } else { 8 } } else { 0 })
            .set("pseed", r.seed())
            .set("io", if r.below(3) == 0 { no_io() } else { gen_io(r) })
            .set("rand_seed", r.seed())
    }
    fn run(&self, case: &J, cx: &mut Cx) -> Res<()> {
        let cfg = cfg_of(case);
        let path = path_of(case);
        cx.boot(&cfg);
        path_of(case);
        let mut r = Rng::new(case.u("pseed"));
        if case.s("mode") == "missing" {
            for t in TOOLS {
                let o = tools::run(t, &path, phase(t));
                if o.code == 0 || o.code >= 1000 {
                    viol!("C23/missing", "oxyroot-{t} ended with {} for a file that does not exist", o.code);
                }
                if o.out.lines().count() > 1 {
                    viol!("C23/missing", "oxyroot-{t} printed data of a file that does not exist: {}", short(&o.out));
                }
            }
            cx.probe("missing file");
        }
        let fixture = case.s("fixture");
        let specs = specs_of(case);
        if fixture.is_empty() {
            must_write(&path, &specs, "C23")?;
            note_specs(cx, &specs);
        } else {
            simos::put_file(&path, fixtures::bytes(fixture));
            cx.probe("ROOT-made files");
        }
        let image = simos::get_file(&path).unwrap_or_default();
        for t in TOOLS {
            let want;
            let o;
            if fixture.is_empty() {
                want = expected(t, &path, &specs)?;
                o = tools::run(t, &path, phase(t));
                check_clean(t, &o, &want)?;
            } else {
                // recorded when the values were compared with what ROOT shows
                o = tools::run(t, &path, phase(t));
                let rec = fixtures::load().get("tools").get(fixture).get(t).clone();
                let got = digest(&path, &o);
                if rec.s("hash") != got.s("hash") || rec.u("code") != got.u("code") {
                    viol!("C23/fixture", "oxyroot-{t} on {fixture}: recorded {rec}, now {got} {}", short(&o.err));
                }
                if o.code != 0 {
                    continue;
                }
                want = o.out.clone();
            }
            cx.probe(if *t == "ls" { "oxyroot-ls: complete output" } else { "oxyroot-dump: complete output" });
            let n = case.u("points") as usize;
            match case.s("mode") {
                "fault" => {
                    let cen = census(&[phase(t)], CLASSES);
                    let plans: Vec<Vec<Fault>> = match faults_of(case) {
                        Some(f) => vec![f],
                        None => points(&mut r, &cen, n)
                            .into_iter()
                            .map(|(phase, class, nth)| {
                                let kind = match class {
                                    Class::Write if r.below(2) == 0 => Kind::Errno(libc::EPIPE),
                                    c => error_kind(&mut r, c),
                                };
                                vec![Fault { phase, class, nth, persist: r.below(2) == 0, kind }]
                            })
                            .collect(),
                    };
                    for faults in plans {
                        cx.boot(&Config { faults: faults.clone(), ..cfg.clone() });
                        path_of(case);
                        simos::put_file(&path, &image);
                        let o = tools::run(t, &path, phase(t));
                        let small = with_faults(case, &faults);
                        check_faulty(t, &o, &want, cx).map_err(|mut v| {
                            v.msg = format!("{} (fault {})", v.msg, small.get("faults"));
                            v.narrowed = Some(small);
                            v
                        })?;
                    }
                }
                "cut" => {
                    let cuts: Vec<u64> = match case.get("cut") {
                        J::Null => (0..n).map(|_| r.below(image.len() as u64)).collect(),
                        _ => vec![case.u("cut")],
                    };
                    for c in cuts {
                        cx.boot(&cfg);
                        path_of(case);
                        simos::put_file(&path, &image[..c as usize]);
                        let o = tools::run(t, &path, phase(t));
                        check_faulty(t, &o, &want, cx).map_err(|mut v| {
                            v.msg = format!("{} (file cut at {c} of {})", v.msg, image.len());
                            v.narrowed = Some(case.clone().set("cut", c));
                            v
                        })?;
                    }
                }
                _ => {}
            }
            cx.boot(&cfg);
            path_of(case);
            simos::put_file(&path, &image);
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "one case puts a written or ROOT-made file on the simulated machine and runs oxyroot-ls and oxyroot-dump there as processes of their own (own arguments, standard output on a simulated descriptor, exit status): fault-free runs, under split and interrupted reads and writes, must print exactly what the model says and succeed; then seeded calls of each run fail (open, read, seek, stat, writes to standard output incl. EPIPE and a full disk), or the file is cut: the output must be a prefix of the right one and success may only be reported for the whole; non-trivial if a fault or short transfer occurred or the file was cut"
    }
}

fn digest(path: &str, o: &ToolOut) -> J {
    let c = canon(&o.out).replacen(&format!("{:?}", std::path::Path::new(path)), "FILE", 1);
    J::obj().set("code", o.code as u64).set("lines", c.lines().count()).set("hash", format!("{:x}", hash_str(&c)).as_str())
}
/// development only
pub fn record() -> J {
    let mut out = J::obj();
    for (name, data) in fixtures::FILES {
        simos::start();
        simos::put_file("/simfs/f.root", data);
        let mut e = J::obj();
        for t in TOOLS {
            let o = tools::run(t, "/simfs/f.root", phase(t));
            if o.code != 0 {
                eprintln!("{name} {t}: {} {}", o.code, o.err);
            }
            if !o.err.is_empty() {
                eprintln!("{name} {t}: {}", o.err);
            }
            if std::env::var("SIM_SHOW").is_ok() {
                let _ = std::fs::write(format!("/tmp/ex_{t}_{name}.txt"), &o.out);
            }
            e.put(t, digest("/simfs/f.root", &o));
        }
        out.put(name, e);
    }
    out
}
