//! Makes files laid out as ROOT and Geant4 lay them out, which the library
//! reads but never writes: arrays of variable length with their counters,
//! several dimensions, members of split classes, baskets kept inside the tree,
//! older versions of trees and branches, 32 bit records, compressed records. It
//! shares no code with the library.
use crate::item::Item;
use crate::json::J;
use crate::rng::{mix2, Rng};
use crate::squeeze;

/// how a column is stored
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// `x/I`
    Plain,
    /// `x[3]/I`
    Fixed,
    /// `x[2][3]/I`
    Grid,
    /// `x[n]/I`
    Jagged,
    /// `x[n][3]/I`
    JaggedGrid,
    /// `x/C`
    Text,
    /// `vector<T>`
    Vector,
    /// a member of a split class
    Member,
    /// an array member of a split class
    MemberFixed,
    /// `T *x; //[n]` of a split class
    MemberJagged,
}
pub const KINDS: &[(&str, Kind)] = &[
    ("plain", Kind::Plain),
    ("fixed", Kind::Fixed),
    ("grid", Kind::Grid),
    ("jagged", Kind::Jagged),
    ("jagged-grid", Kind::JaggedGrid),
    ("text", Kind::Text),
    ("vector", Kind::Vector),
    ("member", Kind::Member),
    ("member-fixed", Kind::MemberFixed),
    ("member-jagged", Kind::MemberJagged),
];

#[derive(Clone, Debug)]
pub struct Col {
    pub name: String,
    pub kind: Kind,
    /// element type
    pub ty: String,
    /// how the lengths of the rows come about
    pub lens: u64,
    pub mode: u64,
    pub seed: u64,
    /// at most this many rows per basket, 0: one basket
    pub per: u64,
    /// the last basket stays inside the tree
    pub embed: bool,
    /// a table of offsets where none is needed
    pub offs: bool,
    /// neighbours with the same number, not 0, are branches of one branch
    pub deep: [u64; 2],
}
#[derive(Clone, Debug)]
pub struct Made {
    pub tree: String,
    pub rows: u64,
    pub cols: Vec<Col>,
    /// version of the tree, of its branches
    pub tv: i16,
    pub bv: i16,
    /// positions of 64 bits
    pub big: bool,
    /// records to be compressed, out of 100
    pub zip: u64,
    pub codec: u64,
    pub block: u64,
    /// gaps between the records, a free list, a streamer list
    pub gaps: bool,
    pub free: bool,
    pub infos: bool,
    /// what else lies in the file: bits for objects of other classes, the
    /// highest for an older version of the tree
    pub others: u64,
    pub seed: u64,
}
impl Col {
    pub fn to_j(&self) -> J {
        J::obj()
            .set("name", self.name.as_str())
            .set("layout", KINDS.iter().find(|k| k.1 == self.kind).unwrap().0)
            .set("t", self.ty.as_str())
            .set("lens", self.lens)
            .set("mode", self.mode)
            .set("dseed", self.seed)
            .set("per", self.per)
            .set("embed", J::B(self.embed))
            .set("offs", J::B(self.offs))
            .set("deep", self.deep[0])
            .set("deeper", self.deep[1])
    }
    fn of(j: &J) -> Col {
        Col {
            name: j.s("name").into(),
            kind: KINDS.iter().find(|k| k.0 == j.s("layout")).map_or(Kind::Plain, |k| k.1),
            ty: if PRIMS.contains(&j.s("t")) { j.s("t").into() } else { "i32".into() },
            lens: j.u("lens"),
            mode: j.u("mode"),
            seed: j.u("dseed"),
            per: j.u("per"),
            embed: j.b("embed"),
            offs: j.b("offs"),
            deep: [j.u("deep"), j.u("deeper")],
        }
    }
    pub fn jagged(&self) -> bool {
        matches!(self.kind, Kind::Jagged | Kind::JaggedGrid | Kind::MemberJagged)
    }
    pub fn member(&self) -> bool {
        matches!(self.kind, Kind::Member | Kind::MemberFixed | Kind::MemberJagged)
    }
    /// rows of every basket
    pub fn baskets(&self, rows: u64) -> Vec<u64> {
        let mut v = vec![];
        let mut left = rows;
        while left > 0 {
            let n = if self.per == 0 { left } else { (1 + mix2(self.seed ^ 0xba5, v.len() as u64) % self.per).min(left) };
            v.push(n);
            left -= n;
        }
        v
    }
    /// elements of a row, in units of the inner array
    pub fn row_len(&self, rows: u64, i: u64) -> u64 {
        let r = mix2(self.seed ^ 0x1e5, i);
        if !self.jagged() {
            return match self.kind {
                Kind::Fixed | Kind::MemberFixed => FIXED,
                Kind::Grid => 2,
                _ => 1,
            };
        }
        match self.lens {
            0 => r % 5,
            1 => 1,
            // as many elements as rows
            2 => 2 * (i % 2),
            3 => 0,
            // the first row of every few holds as many elements as there are rows
            4 => (i % 7 == 0) as u64 * rows,
            5 => 3,
            6 => (r % 50 == 7) as u64 * (r >> 8) % 3000,
            7 => i % 4,
            _ => 1 + (i + 1 == rows) as u64,
        }
    }
    /// what is stored for a row, without the header of the row
    pub fn payload(&self, rows: u64, i: u64) -> Vec<u8> {
        let mut out = vec![];
        match self.kind {
            Kind::Text => {
                let s = <String as Item>::gen(self.seed, self.mode, i);
                s.encode(&mut out);
                return out;
            }
            Kind::Vector => {
                crate::with_prim!(self.ty.as_str(), T => <Vec<T> as Item>::gen(self.seed, self.mode, i).encode(&mut out));
                return out;
            }
            _ => {}
        }
        let n = self.row_len(rows, i) * self.inner();
        let s = mix2(self.seed, i);
        crate::with_prim!(self.ty.as_str(), T => for k in 0..n {
            <T as Item>::gen(s, self.mode % 8, i.wrapping_mul(31).wrapping_add(k)).encode(&mut out);
        });
        out
    }
    /// elements of the inner array
    pub fn inner(&self) -> u64 {
        if matches!(self.kind, Kind::Grid | Kind::JaggedGrid) {
            FIXED
        } else {
            1
        }
    }
    fn size(&self) -> u64 {
        crate::with_prim!(self.ty.as_str(), T => std::mem::size_of::<T>() as u64)
    }
}
/// length of arrays of a fixed length
pub const FIXED: u64 = 3;
pub const PRIMS: &[&str] = &["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "bool"];

#[macro_export]
macro_rules! with_prim {
    ($name:expr, $T:ident => $e:expr) => {{
        macro_rules! arm { ($t:ty) => {{ type $T = $t; $e }}; }
        match $name {
            "i8" => arm!(i8),
            "u8" => arm!(u8),
            "i16" => arm!(i16),
            "u16" => arm!(u16),
            "u32" => arm!(u32),
            "i64" => arm!(i64),
            "u64" => arm!(u64),
            "f32" => arm!(f32),
            "f64" => arm!(f64),
            "bool" => arm!(bool),
            _ => arm!(i32),
        }
    }};
}

impl Made {
    pub fn to_j(&self) -> J {
        J::obj()
            .set("tree", self.tree.as_str())
            .set("rows", self.rows)
            .set("cols", J::A(self.cols.iter().map(|c| c.to_j()).collect()))
            .set("tv", self.tv as i64)
            .set("bv", self.bv as i64)
            .set("big", J::B(self.big))
            .set("zip", self.zip)
            .set("codec", self.codec)
            .set("block", self.block)
            .set("gaps", J::B(self.gaps))
            .set("free", J::B(self.free))
            .set("infos", J::B(self.infos))
            .set("others", self.others)
            .set("zseed", self.seed)
    }
    pub fn of(j: &J) -> Made {
        let ver = |k, d: &[i64]| if d.contains(&j.i(k)) { j.i(k) as i16 } else { d[0] as i16 };
        Made {
            tree: j.s("tree").into(),
            rows: j.u("rows"),
            cols: j.a("cols").iter().map(Col::of).collect(),
            tv: ver("tv", TREES),
            bv: ver("bv", BRANCHES),
            big: j.b("big"),
            zip: j.u("zip"),
            codec: j.u("codec"),
            block: j.u("block").max(16),
            gaps: j.b("gaps"),
            free: j.b("free"),
            infos: j.b("infos"),
            others: j.u("others"),
            seed: j.u("zseed"),
        }
    }
}
pub const TREES: &[i64] = &[20, 19, 18, 17, 16, 6, 5];
pub const BRANCHES: &[i64] = &[13, 12, 11, 10, 9, 8, 7, 6];

// ------------------------------------------------------------------ buffers
#[derive(Default)]
struct W {
    b: Vec<u8>,
    /// positions inside count from the start of the record
    base: usize,
    classes: Vec<(String, u32)>,
}
impl W {
    fn u8(&mut self, v: u8) {
        self.b.push(v)
    }
    fn i16(&mut self, v: i16) {
        self.b.extend_from_slice(&v.to_be_bytes())
    }
    fn i32(&mut self, v: i32) {
        self.b.extend_from_slice(&v.to_be_bytes())
    }
    fn i64(&mut self, v: i64) {
        self.b.extend_from_slice(&v.to_be_bytes())
    }
    fn f64(&mut self, v: f64) {
        self.b.extend_from_slice(&v.to_be_bytes())
    }
    /// 64 bits, or 32
    fn seek(&mut self, big: bool, v: u64) {
        if big {
            self.i64(v as i64)
        } else {
            self.i32(v as i32)
        }
    }
    fn str(&mut self, s: &str) {
        if s.len() < 255 {
            self.u8(s.len() as u8);
        } else {
            self.u8(255);
            self.i32(s.len() as i32);
        }
        self.b.extend_from_slice(s.as_bytes());
    }
    /// an object with its byte count and version
    fn obj(&mut self, vers: i16, f: impl FnOnce(&mut W)) {
        let at = self.b.len();
        self.i32(0);
        self.i16(vers);
        f(self);
        let n = (self.b.len() - at - 4) as u32 | 0x4000_0000;
        self.b[at..at + 4].copy_from_slice(&n.to_be_bytes());
    }
    /// an object by pointer; returns what references to it say
    fn any(&mut self, class: &str, f: impl FnOnce(&mut W)) -> u32 {
        let at = self.b.len();
        self.i32(0);
        match self.classes.iter().find(|c| c.0 == class) {
            Some(c) => {
                let t = c.1 | 0x8000_0000;
                self.i32(t as i32)
            }
            None => {
                let tag = (self.b.len() + self.base + 2) as u32;
                self.i32(-1);
                self.b.extend_from_slice(class.as_bytes());
                self.u8(0);
                self.classes.push((class.into(), tag));
            }
        }
        f(self);
        let n = (self.b.len() - at - 4) as u32 | 0x4000_0000;
        self.b[at..at + 4].copy_from_slice(&n.to_be_bytes());
        (at + self.base + 2) as u32
    }
    fn nil(&mut self) {
        self.i32(0)
    }
    fn tobject(&mut self) {
        self.i16(1);
        self.i32(0);
        self.i32(0x0300_0000);
    }
    fn tnamed(&mut self, name: &str, title: &str) {
        self.obj(1, |w| {
            w.tobject();
            w.str(name);
            w.str(title);
        })
    }
    fn array(&mut self, n: u64, f: impl FnOnce(&mut W)) {
        self.obj(3, |w| {
            w.tobject();
            w.str("");
            w.i32(n as i32);
            w.i32(0);
            f(w)
        })
    }
    fn iofeatures(&mut self) {
        self.obj(1, |w| w.u8(0))
    }
}

/// the file under construction
struct File<'a> {
    d: Vec<u8>,
    m: &'a Made,
    r: Rng,
    free: Vec<(u64, u64)>,
}
const DATE: i32 = 0x6512_3456;
impl File<'_> {
    fn key_len(&self, class: &str, name: &str, title: &str, extra: usize) -> usize {
        let s = |x: &str| x.len() + if x.len() < 255 { 1 } else { 5 };
        18 + if self.m.big { 16 } else { 8 } + s(class) + s(name) + s(title) + extra
    }
    #[allow(clippy::too_many_arguments)]
    fn key(&self, w: &mut W, nbytes: usize, obj: usize, kl: usize, cycle: i16, at: u64, class: &str, name: &str, title: &str) {
        w.i32(nbytes as i32);
        w.i16(if self.m.big { 1004 } else { 4 });
        w.i32(obj as i32);
        w.i32(DATE);
        w.i16(kl as i16);
        w.i16(cycle);
        w.seek(self.m.big, at);
        w.seek(self.m.big, if class == "TFile" { 0 } else { 100 });
        w.str(class);
        w.str(name);
        w.str(title);
    }
    /// appends a record; `extra` is what a basket keeps behind its key
    fn record(&mut self, class: &str, name: &str, title: &str, extra: &[u8], body: &[u8], zip: bool) -> (u64, u64, u64) {
        if self.m.gaps && self.r.below(3) == 0 {
            let n = self.r.range(8, 60);
            let at = self.d.len() as u64;
            self.d.extend_from_slice(&(-(n as i32)).to_be_bytes());
            self.d.extend(std::iter::repeat_n(0xa5, n as usize - 4));
            self.free.push((at, at + n - 1));
        }
        let at = self.d.len() as u64;
        let kl = self.key_len(class, name, title, extra.len());
        let o = squeeze::Opts { codec: self.m.codec, block: self.m.block as usize, share: 100 };
        let packed = if zip && self.r.below(100) < self.m.zip { squeeze::pack(body, &o, &mut self.r) } else { None };
        let out = packed.as_deref().unwrap_or(body);
        let mut w = W::default();
        self.key(&mut w, kl + out.len(), body.len(), kl, 1, at, class, name, title);
        w.b.extend_from_slice(extra);
        assert_eq!(w.b.len(), kl, "harness: key length");
        self.d.extend_from_slice(&w.b);
        self.d.extend_from_slice(out);
        (at, (kl + out.len()) as u64, body.len() as u64)
    }
}

/// one basket: what precedes and what follows it in the branch
struct Basket {
    rows: u64,
    first: u64,
    data: Vec<u8>,
    /// where each row starts in `data`
    offsets: Vec<usize>,
}

fn header_of(c: &Col, payload: &[u8], out: &mut Vec<u8>) {
    match c.kind {
        // byte count and version
        Kind::Vector => {
            out.extend_from_slice(&((payload.len() as u32 + 2) | 0x4000_0000).to_be_bytes());
            out.extend_from_slice(&9i16.to_be_bytes());
        }
        // the array is there
        Kind::MemberJagged => out.push(1),
        _ => {}
    }
}
fn title_of(c: &Col) -> String {
    match c.kind {
        Kind::Fixed | Kind::MemberFixed => format!("{}[{FIXED}]", c.name),
        Kind::Grid => format!("{}[2][{FIXED}]", c.name),
        Kind::Jagged | Kind::MemberJagged => format!("{}[n_{}]", c.name, c.name),
        Kind::JaggedGrid => format!("{}[n_{}][{FIXED}]", c.name, c.name),
        _ => c.name.clone(),
    }
}
fn ltype(c: &Col) -> i32 {
    let t = match c.ty.as_str() {
        "i8" => 1,
        "i16" => 2,
        "i64" => 4,
        "f32" => 5,
        "f64" => 8,
        "u8" => 11,
        "u16" => 12,
        "u32" => 13,
        "u64" => 14,
        "bool" => 18,
        _ => 3,
    };
    match c.kind {
        Kind::MemberFixed => t + 20,
        Kind::MemberJagged => t + 40,
        Kind::Vector => -1,
        _ => t,
    }
}
fn cpp(ty: &str) -> &'static str {
    match ty {
        "i8" => "int8_t",
        "u8" => "uint8_t",
        "i16" => "short",
        "u16" => "unsigned short",
        "u32" => "unsigned int",
        "i64" => "long",
        "u64" => "unsigned long",
        "f32" => "float",
        "f64" => "double",
        "bool" => "bool",
        _ => "int",
    }
}

/// a column whose values are the row lengths of another
pub fn counter(c: &Col) -> Col {
    Col { name: format!("n_{}", c.name), kind: Kind::Plain, ty: "i32".into(), embed: c.embed, offs: false, ..c.clone() }
}

fn baskets(c: &Col, of: Option<&Col>, rows: u64) -> Vec<Basket> {
    let mut v = vec![];
    let mut i = 0;
    for n in c.baskets(rows) {
        let mut b = Basket { rows: n, first: i, data: vec![], offsets: vec![] };
        for _ in 0..n {
            b.offsets.push(b.data.len());
            match of {
                Some(j) => b.data.extend_from_slice(&(j.row_len(rows, i) as i32).to_be_bytes()),
                None => {
                    let p = c.payload(rows, i);
                    header_of(c, &p, &mut b.data);
                    b.data.extend_from_slice(&p);
                }
            }
            i += 1;
        }
        v.push(b);
    }
    v
}

/// writes one branch into the tree, after its baskets; returns the reference to its leaf
fn branch(f: &mut File, w: &mut W, c: &Col, of: Option<&Col>, count: Option<u32>) -> u32 {
    let m = f.m;
    let table = c.jagged() || matches!(c.kind, Kind::Text | Kind::Vector) || c.offs;
    let mut all = baskets(c, of, m.rows);
    let inside = if c.embed { Some(all.pop().unwrap_or(Basket { rows: 0, first: 0, data: vec![], offsets: vec![] })) } else { None };
    let entry_size = if table { 1000 } else { (c.size() * c.row_len(m.rows, 0) * c.inner()) as i32 };
    let mut places = vec![];
    let (mut tot, mut zipped) = (0, 0);
    for b in &all {
        let kl = f.key_len("TBasket", &c.name, &m.tree, 19);
        let mut body = b.data.clone();
        if table {
            body.extend_from_slice(&(b.rows as i32 + 1).to_be_bytes());
            for o in &b.offsets {
                body.extend_from_slice(&((o + kl) as i32).to_be_bytes());
            }
            body.extend_from_slice(&0i32.to_be_bytes());
        }
        let mut x = W::default();
        x.i16(if m.bv < 10 { 2 } else { 3 });
        x.i32(32_000);
        x.i32(entry_size);
        x.i32(b.rows as i32);
        x.i32((kl + b.data.len()) as i32);
        x.u8(0);
        let (at, n, o) = f.record("TBasket", &c.name, &m.tree, &x.b, &body, true);
        places.push((at, n, b.first));
        tot += o + kl as u64;
        zipped += n;
    }
    let mut leaf_ref = 0;
    let element = c.member() || c.kind == Kind::Vector;
    let class = if element { "TBranchElement" } else { "TBranch" };
    let title = title_of(c);
    w.any(class, |w| {
        let mut body = |w: &mut W| {
            w.obj(m.bv, |w| {
                w.tnamed(&c.name, &title);
                if m.bv > 7 {
                    w.obj(2, |w| {
                        w.i16(0);
                        w.i16(1001);
                    });
                }
                let maxb = (places.len() as u64 + 1).max(10);
                w.i32(101);
                w.i32(32_000);
                w.i32(if table { 1000 } else { 0 });
                w.i32(places.len() as i32);
                let lists = |w: &mut W, leaf_ref: &mut u32| {
                    w.array(0, |_| {});
                    w.array(1, |w| *leaf_ref = leaf(w, c, &title, count));
                    match &inside {
                        None => w.array(0, |_| {}),
                        Some(b) => w.array(places.len() as u64 + 1, |w| {
                            for _ in &places {
                                w.nil();
                            }
                            w.any("TBasket", |w| {
                                let kl = f.key_len("TBasket", &c.name, &m.tree, 19);
                                let start = w.b.len();
                                f.key(w, kl, 0, kl, places.len() as i16, 0, "TBasket", &c.name, &m.tree);
                                w.i16(if m.bv < 10 { 2 } else { 3 });
                                w.i32(32_000);
                                w.i32(entry_size);
                                w.i32(b.rows as i32);
                                w.i32((kl + b.data.len()) as i32);
                                let with = table && b.rows > 0;
                                w.u8(if with { 11 } else { 12 });
                                let head = w.b[start..].to_vec();
                                if with {
                                    w.i32(b.rows as i32);
                                    for o in &b.offsets {
                                        w.i32((o + kl) as i32);
                                    }
                                }
                                w.b.extend_from_slice(&head);
                                w.b.extend_from_slice(&b.data);
                            });
                        }),
                    }
                };
                let last = inside.as_ref().map_or(m.rows, |b| b.first);
                if m.bv >= 10 {
                    w.i64(m.rows as i64);
                    if m.bv >= 13 {
                        w.iofeatures();
                    }
                    w.i32(0);
                    w.i32(maxb as i32);
                    w.i32(if element { 99 } else { 0 });
                    w.i64(m.rows as i64);
                    if m.bv >= 11 {
                        w.i64(0);
                    }
                    w.i64(tot as i64);
                    w.i64(zipped as i64);
                    lists(w, &mut leaf_ref);
                } else {
                    w.i32(m.rows as i32);
                    w.i32(0);
                    w.i32(maxb as i32);
                    if m.bv > 6 {
                        w.i32(if element { 99 } else { 0 });
                    }
                    w.f64(m.rows as f64);
                    w.f64(tot as f64);
                    w.f64(zipped as f64);
                    lists(w, &mut leaf_ref);
                }
                // slots that are not in use may keep what was there (zero in the older versions)
                let stale = if m.others & STALE != 0 && m.bv >= 10 { places.first().copied().unwrap_or((100, 200, 1)) } else { (0, 0, 0) };
                w.u8(1);
                for i in 0..maxb as usize {
                    w.i32(places.get(i).map_or(stale.1, |p| p.1) as i32);
                }
                w.u8(1);
                for i in 0..maxb as usize {
                    let e = places.get(i).map_or(if i == places.len() { last } else { stale.2 }, |p| p.2);
                    if m.bv >= 10 {
                        w.i64(e as i64)
                    } else {
                        w.i32(e as i32)
                    }
                }
                let wide = m.bv >= 10 || m.big;
                w.u8(if m.bv < 10 && wide { 2 } else { 1 });
                for i in 0..maxb as usize {
                    w.seek(wide, places.get(i).map_or(stale.0, |p| p.0));
                }
                w.str("");
            })
        };
        if element {
            w.obj(if m.bv >= 12 { 10 } else { 8 }, |w| {
                body(w);
                let t = if c.kind == Kind::Vector { format!("vector<{}>", cpp(&c.ty)) } else { "Event".into() };
                w.str(&t);
                w.str("");
                w.str("");
                w.i32(0x1234_5678);
                if m.bv >= 12 {
                    w.i16(1)
                } else {
                    w.i32(1)
                }
                w.i32(if c.kind == Kind::Vector { -1 } else { 2 });
                w.i32(0);
                w.i32(ltype(c));
                w.i32(0);
                w.nil();
                w.nil();
            })
        } else {
            body(w)
        }
    });
    leaf_ref
}

fn leaf(w: &mut W, c: &Col, title: &str, count: Option<u32>) -> u32 {
    let element = c.member() || c.kind == Kind::Vector;
    let class = match (element, c.kind, c.ty.as_str()) {
        (true, ..) => "TLeafElement",
        (_, Kind::Text, _) => "TLeafC",
        (.., "i8" | "u8") => "TLeafB",
        (.., "i16" | "u16") => "TLeafS",
        (.., "i64" | "u64") => "TLeafL",
        (.., "f32") => "TLeafF",
        (.., "f64") => "TLeafD",
        (.., "bool") => "TLeafO",
        _ => "TLeafI",
    };
    let len = match c.kind {
        Kind::Fixed | Kind::MemberFixed | Kind::JaggedGrid => FIXED,
        Kind::Grid => 2 * FIXED,
        _ => 1,
    };
    w.any(class, |w| {
        w.obj(1, |w| {
            w.obj(2, |w| {
                w.tnamed(&c.name, title);
                w.i32(len as i32);
                w.i32(if c.kind == Kind::Text { 1 } else if c.kind == Kind::Vector { 0 } else { c.size() as i32 });
                w.i32(0);
                w.u8((c.name.starts_with("n_")) as u8);
                w.u8((!element && c.kind != Kind::Text && c.ty.starts_with('u')) as u8);
                w.i32(count.unwrap_or(0) as i32);
            });
            match class {
                "TLeafElement" => {
                    w.i32(2);
                    w.i32(ltype(c));
                }
                "TLeafB" | "TLeafO" => w.i16(0),
                "TLeafS" => w.i32(0),
                "TLeafL" | "TLeafD" => {
                    w.i64(0);
                    w.i64(0);
                }
                _ => w.i64(0),
            }
        })
    })
}

/// a branch of the file: a column, or a branch which only has branches
#[derive(Debug)]
pub enum Node {
    /// a column, or the counter of one
    Col(Col, Option<Col>),
    Up(String, Vec<Node>),
}
pub fn nodes(cols: &[Col]) -> Vec<Node> {
    fn level(cols: &[Col], first: usize, d: usize, out: &mut Vec<Node>) {
        let mut i = 0;
        while i < cols.len() {
            let g = if d < 2 { cols[i].deep[d] } else { 0 };
            if g == 0 {
                let c = &cols[i];
                if c.jagged() {
                    out.push(Node::Col(counter(c), Some(c.clone())));
                }
                out.push(Node::Col(c.clone(), None));
                i += 1;
                continue;
            }
            let n = cols[i..].iter().take_while(|c| c.deep[d] == g).count();
            let mut v = vec![];
            level(&cols[i..i + n], first + i, d + 1, &mut v);
            out.push(Node::Up(format!("{}{}", ["evt", "part."][d], first + i), v));
            i += n;
        }
    }
    let mut v = vec![];
    level(cols, 0, 0, &mut v);
    v
}
/// a list of branches; `leaves` gets the references to their leaves
fn list(f: &mut File, w: &mut W, v: &[Node], leaves: &mut Vec<u32>) {
    let mut count = None;
    w.array(v.len() as u64, |w| {
        for n in v {
            match n {
                Node::Col(c, of) => {
                    let l = branch(f, w, c, of.as_ref(), count.take());
                    leaves.push(l);
                    count = of.is_some().then_some(l);
                }
                Node::Up(name, v) => above(f, w, name, v, leaves),
            }
        }
    })
}
/// a branch which only has branches
fn above(f: &mut File, w: &mut W, name: &str, v: &[Node], leaves: &mut Vec<u32>) {
    let m = f.m;
    w.any("TBranchElement", |w| {
        w.obj(if m.bv >= 12 { 10 } else { 8 }, |w| {
            w.obj(m.bv, |w| {
                w.tnamed(name, name);
                if m.bv > 7 {
                    w.obj(2, |w| {
                        w.i16(0);
                        w.i16(1001);
                    });
                }
                for x in [101, 32_000, 0, 0] {
                    w.i32(x);
                }
                let own = Col {
                    name: name.into(),
                    kind: Kind::Member,
                    ty: "i32".into(),
                    lens: 0,
                    mode: 0,
                    seed: 0,
                    per: 0,
                    embed: false,
                    offs: false,
                    deep: [0, 0],
                };
                let mut rest = |w: &mut W| {
                    list(f, w, v, leaves);
                    w.array(1, |w| leaves.push(leaf(w, &own, name, None)));
                    w.array(0, |_| {});
                };
                if m.bv >= 10 {
                    w.i64(m.rows as i64);
                    if m.bv >= 13 {
                        w.iofeatures();
                    }
                    w.i32(0);
                    w.i32(10);
                    w.i32(99);
                    w.i64(m.rows as i64);
                    if m.bv >= 11 {
                        w.i64(0);
                    }
                    w.i64(0);
                    w.i64(0);
                } else {
                    w.i32(m.rows as i32);
                    w.i32(0);
                    w.i32(10);
                    if m.bv > 6 {
                        w.i32(99);
                    }
                    w.f64(m.rows as f64);
                    w.f64(0.0);
                    w.f64(0.0);
                }
                rest(w);
                let wide = m.bv >= 10 || m.big;
                w.u8(1);
                for _ in 0..10 {
                    w.i32(0);
                }
                w.u8(1);
                for _ in 0..10 {
                    w.seek(m.bv >= 10, 0);
                }
                w.u8(if m.bv < 10 && wide { 2 } else { 1 });
                for _ in 0..10 {
                    w.seek(wide, 0);
                }
                w.str("");
            });
            w.str("Event");
            w.str("");
            w.str("");
            w.i32(0x1234_5678);
            if m.bv >= 12 {
                w.i16(1)
            } else {
                w.i32(1)
            }
            w.i32(-2);
            w.i32(0);
            w.i32(-1);
            w.i32(0);
            w.nil();
            w.nil();
        })
    });
}

/// objects of other classes; what the key of a record says of the cycle is not
/// what the list of keys says, no reader looks at it
pub const OTHERS: &[(&str, &str)] =
    &[("TObjString", "note"), ("TList", "list"), ("TNamed", "named"), ("TH1F", "h1"), ("TDirectory", "sub"), ("TMap", "map")];
pub const OLD: u64 = 1 << 6;
/// a list of notes in the tree itself
pub const INFO: u64 = 1 << 7;
/// left-overs in the slots for baskets that are not in use
pub const STALE: u64 = 1 << 8;
/// the names in the list of keys
pub fn names(m: &Made) -> Vec<String> {
    let mut v: Vec<String> = OTHERS.iter().enumerate().filter(|(i, _)| m.others >> i & 1 == 1).map(|(_, o)| o.1.to_string()).collect();
    v.push(m.tree.clone());
    if m.others & OLD != 0 {
        v.push(m.tree.clone());
    }
    v.sort();
    v
}
fn other(f: &mut File, class: &str, name: &str) -> (u64, u64, u64) {
    let mut w = W::default();
    match class {
        "TObjString" => w.obj(1, |w| {
            w.tobject();
            w.str("a note");
        }),
        "TList" => w.obj(5, |w| {
            w.tobject();
            w.str(name);
            w.i32(0);
        }),
        "TMap" => w.obj(3, |w| {
            w.tobject();
            w.str(name);
            w.i32(0);
        }),
        "TDirectory" => {
            w.i16(5);
            for v in [DATE, DATE, 60, 60, 100, 100, 200] {
                w.i32(v);
            }
            w.i16(1);
            w.b.extend_from_slice(&[3; 16]);
        }
        _ => w.tnamed(name, "title"),
    }
    f.record(class, name, "title", &[], &w.b, true)
}
fn tree(f: &mut File, m: &Made, cols: &[Col], rows: u64) -> (u64, u64, u64) {
    let tkl = f.key_len("TTree", &m.tree, "title", 0);
    let mut w = W { base: tkl, ..W::default() };
    w.obj(m.tv, |w| {
        w.tnamed(&m.tree, "title");
        w.obj(2, |w| {
            w.i16(602);
            w.i16(1);
            w.i16(1);
        });
        w.obj(2, |w| {
            w.i16(0);
            w.i16(1001);
        });
        w.obj(2, |w| {
            w.i16(602);
            w.i16(1);
            w.i32(0x3f80_0000);
        });
        let num = |w: &mut W, v: i64| if m.tv > 5 { w.i64(v) } else { w.f64(v as f64) };
        num(w, rows as i64);
        num(w, 1000);
        num(w, 1000);
        num(w, 0);
        if m.tv >= 18 {
            w.i64(0);
        }
        if m.tv >= 16 {
            w.f64(1.0);
        }
        w.i32(0);
        w.i32(25);
        w.i32(0);
        if m.tv >= 17 {
            w.i32(1000);
        }
        let ncl = if m.tv >= 19 { (m.seed % 3) as i32 } else { 0 };
        if m.tv >= 19 {
            w.i32(ncl);
        }
        let old = |w: &mut W, v: i64| if m.tv > 5 { w.i64(v) } else { w.i32(v as i32) };
        if m.tv > 5 {
            w.i64(1_000_000_000_000);
        }
        old(w, 1_000_000_000);
        old(w, 0);
        old(w, 300_000_000);
        if m.tv >= 18 {
            w.i64(-30_000_000);
        }
        old(w, 1_000_000);
        if m.tv >= 19 {
            for _ in 0..2 {
                w.u8((ncl > 0) as u8);
                for k in 0..ncl {
                    w.i64(rows as i64 / 2 + k as i64);
                }
            }
        }
        if m.tv >= 20 {
            w.iofeatures();
        }
        let mut leaves = vec![];
        list(f, w, &nodes(cols), &mut leaves);
        w.array(leaves.len() as u64, |w| {
            for l in &leaves {
                w.i32(*l as i32);
            }
        });
        let nils = if m.tv > 5 { 7 } else { 2 };
        for i in 0..nils {
            if i != 5 || m.others & INFO == 0 {
                w.nil();
                continue;
            }
            w.any("TList", |w| {
                w.obj(5, |w| {
                    w.tobject();
                    w.str("");
                    w.i32(3);
                    for i in 0..3 {
                        w.any("TObjString", |w| {
                            w.obj(1, |w| {
                                w.tobject();
                                w.str(&format!("note {i}"));
                            })
                        });
                        w.u8(0);
                    }
                })
            });
        }
    });
    f.record("TTree", &m.tree, "title", &[], &w.b, true)
}

pub fn make(m: &Made) -> Vec<u8> {
    let mut f = File { d: vec![0; 100], m, r: Rng::new(m.seed), free: vec![] };
    // the directory of the file
    let kl = f.key_len("TFile", "f.root", "", 0);
    let name_len = "f.root".len() + 2;
    let nbytes_name = kl + name_len;
    let mut w = W::default();
    let dir_len = 2 + 8 + 8 + if m.big { 24 } else { 12 } + 18 + if m.big { 0 } else { 12 };
    f.key(&mut w, nbytes_name + dir_len, name_len + dir_len, kl, 1, 100, "TFile", "f.root", "");
    w.str("f.root");
    w.str("");
    let dir_at = 100 + w.b.len();
    w.b.extend(std::iter::repeat_n(0, dir_len));
    f.d.extend_from_slice(&w.b);
    // the tree, after its baskets
    let mut keys: Vec<(&str, &str, i16, (u64, u64, u64))> = vec![];
    if m.others & OLD != 0 {
        let t = tree(&mut f, m, &[], 0);
        keys.push(("TTree", &m.tree, 1, t));
    }
    let t = tree(&mut f, m, &m.cols, m.rows);
    keys.push(("TTree", &m.tree, 1 + (m.others & OLD != 0) as i16, t));
    for (i, o) in OTHERS.iter().enumerate() {
        if m.others >> i & 1 == 1 {
            let t = other(&mut f, o.0, o.1);
            keys.push((o.0, o.1, 1, t));
        }
    }
    // newest first, otherwise in some order
    let k = m.seed as usize % keys.len();
    keys.rotate_left(k);
    if let (Some(a), Some(b)) = (keys.iter().position(|k| k.0 == "TTree"), keys.iter().rposition(|k| k.0 == "TTree")) {
        if keys[a].2 < keys[b].2 {
            keys.swap(a, b);
        }
    }
    // the list of keys
    let mut w = W::default();
    w.i32(keys.len() as i32);
    for (class, name, cycle, t) in &keys {
        let kl = f.key_len(class, name, "title", 0);
        f.key(&mut w, t.1 as usize, t.2 as usize, kl, *cycle, t.0, class, name, "title");
    }
    let keys = f.record("TFile", "f.root", "", &[], &w.b, false);
    let infos = if m.infos {
        let mut w = W::default();
        w.obj(5, |w| {
            w.tobject();
            w.str("");
            w.i32(0);
        });
        f.record("TList", "StreamerInfo", "Doubly linked list", &[], &w.b, true)
    } else {
        (0, 0, 0)
    };
    let mut w = W::default();
    let mut nfree = 1;
    if m.free {
        // segments of four bytes are put before the open end
        for (a, b) in f.free.clone() {
            w.i16(if m.big { 1001 } else { 1 });
            w.seek(m.big, a);
            w.seek(m.big, b);
            nfree += 1;
        }
        let fkl = f.key_len("TFile", "f.root", "", 0);
        let seg = if m.big { 18 } else { 10 };
        let end = f.d.len() + fkl + w.b.len() + seg;
        w.i16(if m.big { 1001 } else { 1 });
        w.seek(m.big, end as u64);
        w.seek(m.big, 2_000_000_000);
    }
    let free = if m.free {
        // no gap in front of it, its size is known already
        let keep = f.m;
        let still = Made { gaps: false, ..keep.clone() };
        let mut g = File { d: std::mem::take(&mut f.d), m: &still, r: f.r.clone(), free: vec![] };
        let k = g.record("TFile", "f.root", "", &[], &w.b, false);
        f.d = g.d;
        k
    } else {
        (0, 0, 0)
    };
    // the header and the directory
    let mut d = f.d;
    let end = d.len() as u64;
    let mut h = W::default();
    h.b.extend_from_slice(b"root");
    h.i32(if m.big { 1_062_206 } else { 62_206 });
    h.i32(100);
    h.seek(m.big, end);
    h.seek(m.big, free.0);
    h.i32(free.1 as i32);
    h.i32(nfree);
    h.i32(nbytes_name as i32);
    h.u8(if m.big { 8 } else { 4 });
    h.i32(101);
    h.seek(m.big, infos.0);
    h.i32(infos.1 as i32);
    h.i16(1);
    h.b.extend_from_slice(&[7; 16]);
    d[..h.b.len()].copy_from_slice(&h.b);
    let mut x = W::default();
    x.i16(if m.big { 1005 } else { 5 });
    x.i32(DATE);
    x.i32(DATE);
    x.i32(keys.1 as i32);
    x.i32(nbytes_name as i32);
    x.seek(m.big, 100);
    x.seek(m.big, 0);
    x.seek(m.big, keys.0);
    x.i16(1);
    x.b.extend_from_slice(&[9; 16]);
    d[dir_at..dir_at + x.b.len()].copy_from_slice(&x.b);
    d
}
