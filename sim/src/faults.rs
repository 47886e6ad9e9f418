//! Faults in cases and their enumeration over the calls of a session.
use crate::json::J;
use crate::rng::Rng;
use crate::simos::{self, class_name, class_of, Class, Fault, Kind};

pub const ERRNOS: &[(&str, i32)] = &[
    ("EIO", libc::EIO),
    ("ENOSPC", libc::ENOSPC),
    ("EMFILE", libc::EMFILE),
    ("EACCES", libc::EACCES),
    ("EDQUOT", libc::EDQUOT),
    ("EFBIG", libc::EFBIG),
    ("ENOENT", libc::ENOENT),
    ("EINVAL", libc::EINVAL),
    ("ENOMEM", libc::ENOMEM),
    ("ESTALE", libc::ESTALE),
    ("EAGAIN", libc::EAGAIN),
    ("EPIPE", libc::EPIPE),
];

pub fn fault_j(f: &Fault) -> J {
    let j = J::obj().set("phase", f.phase as u64).set("class", class_name(f.class)).set("nth", f.nth).set("persist", J::B(f.persist));
    match &f.kind {
        Kind::Errno(e) => j.set("kind", ERRNOS.iter().find(|x| x.1 == *e).map(|x| x.0).unwrap_or("EIO")),
        Kind::Zero => j.set("kind", "zero"),
        Kind::Full => j.set("kind", "full"),
        Kind::Trunc(None) => j.set("kind", "trunc"),
        Kind::Trunc(Some(l)) => j.set("kind", "trunc").set("len", *l),
        Kind::Chdir(p) => j.set("kind", "chdir").set("a", p.as_str()),
        Kind::Unlink(p) => j.set("kind", "unlink").set("a", p.as_str()),
        Kind::Rename(a, b) => j.set("kind", "rename").set("a", a.as_str()).set("b", b.as_str()),
        Kind::Replace(a, b) => j.set("kind", "replace").set("a", a.as_str()).set("b", b.as_str()),
    }
}
pub fn fault_of(j: &J) -> Fault {
    let kind = match j.s("kind") {
        "zero" => Kind::Zero,
        "full" => Kind::Full,
        "trunc" => Kind::Trunc(if j.get("len").is_null() { None } else { Some(j.u("len")) }),
        "chdir" => Kind::Chdir(j.s("a").into()),
        "unlink" => Kind::Unlink(j.s("a").into()),
        "rename" => Kind::Rename(j.s("a").into(), j.s("b").into()),
        "replace" => Kind::Replace(j.s("a").into(), j.s("b").into()),
        e => Kind::Errno(ERRNOS.iter().find(|x| x.0 == e).map(|x| x.1).unwrap_or(libc::EIO)),
    };
    Fault { phase: j.u("phase") as u32, class: class_of(j.s("class")), nth: j.u("nth").max(1), kind, persist: j.b("persist") }
}
/// the explicit faults of a case, if it names any
pub fn faults_of(case: &J) -> Option<Vec<Fault>> {
    match case.get("faults") {
        J::A(v) => Some(v.iter().map(fault_of).collect()),
        _ => None,
    }
}
pub fn with_faults(case: &J, f: &[Fault]) -> J {
    case.clone().set("faults", J::A(f.iter().map(fault_j).collect()))
}

/// numbers of calls made so far in this run, by phase and class
pub fn census(phases: &[u32], classes: &[Class]) -> Vec<(u32, Class, u64)> {
    let mut v = vec![];
    for p in phases {
        for c in classes {
            let n = simos::count(*p, *c);
            if n > 0 {
                v.push((*p, *c, n));
            }
        }
    }
    v
}

/// `want` single faults spread over the calls of a census: the first and last
/// calls of each kind always, the rest sampled without repetition.
pub fn points(r: &mut Rng, census: &[(u32, Class, u64)], want: usize) -> Vec<(u32, Class, u64)> {
    let mut all: Vec<(u32, Class, u64)> = vec![];
    let total: u64 = census.iter().map(|c| c.2).sum();
    if total <= want as u64 {
        for (p, c, n) in census {
            all.extend((1..=*n).map(|k| (*p, *c, k)));
        }
        return all;
    }
    // every kind of call has its share, whatever the number of points
    let sure = if want < census.len() * 5 { want / 2 } else { want };
    'sure: for which in 0..5u64 {
        for (p, c, n) in census {
            let k = [1, *n, 2, n.saturating_sub(1), n.saturating_sub(2)][which as usize];
            if k >= 1 && k <= *n && !all.contains(&(*p, *c, k)) {
                if all.len() >= sure.max(census.len()) {
                    break 'sure;
                }
                all.push((*p, *c, k));
            }
        }
    }
    let mut guard = 0;
    while all.len() < want && guard < want * 20 {
        guard += 1;
        let (p, c, n) = *r.pick(census);
        let k = (p, c, r.range(1, n));
        if !all.contains(&k) {
            all.push(k);
        }
    }
    all.truncate(want.max(census.len()));
    all
}

/// a kind of failure that suits the class of call
pub fn error_kind(r: &mut Rng, c: Class) -> Kind {
    let pick = |r: &mut Rng, v: &[i32]| Kind::Errno(v[r.below(v.len() as u64) as usize]);
    match c {
        Class::Open => pick(r, &[libc::EMFILE, libc::EACCES, libc::EIO, libc::ENOENT, libc::ENOMEM]),
        Class::Read => {
            if r.below(3) == 0 {
                Kind::Zero
            } else {
                pick(r, &[libc::EIO, libc::EIO, libc::ESTALE, libc::EINVAL])
            }
        }
        Class::Write => match r.below(6) {
            0 => Kind::Zero,
            1 => Kind::Full,
            _ => pick(r, &[libc::EIO, libc::ENOSPC, libc::ENOSPC, libc::EDQUOT, libc::EFBIG]),
        },
        _ => pick(r, &[libc::EIO, libc::EIO, libc::EINVAL]),
    }
}
