//! An independent reader of the ROOT container format: it shares no code with
//! the library. It walks the records of a file, decodes the directory, the key
//! list, the free list, the streamer-info list and every TTree record with its
//! branches and leaves, and follows the basket tables to the raw items.
use std::collections::BTreeMap;

pub type R<T> = Result<T, String>;

pub struct Header {
    pub version: i64,
    pub begin: u64,
    pub end: u64,
    pub seek_free: u64,
    pub nbytes_free: u64,
    pub nfree: i64,
    pub nbytes_name: u64,
    pub units: u64,
    pub seek_info: u64,
    pub nbytes_info: u64,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Key {
    pub at: u64,
    pub nbytes: u64,
    pub vers: i64,
    pub obj_len: u64,
    pub key_len: u64,
    pub cycle: i64,
    pub seek: u64,
    pub pdir: u64,
    pub class: String,
    pub name: String,
    pub title: String,
    /// bytes the fields above take
    pub head: u64,
}

pub struct Dir {
    pub nbytes_keys: u64,
    pub nbytes_name: u64,
    pub seek_dir: u64,
    pub seek_parent: u64,
    pub seek_keys: u64,
}

#[derive(Debug)]
pub struct Leaf {
    pub class: String,
    pub name: String,
    pub title: String,
    pub len: i64,
    pub etype: i64,
    pub unsigned: bool,
    pub at: u64,
}
#[derive(Debug)]
pub struct Branch {
    pub class: String,
    pub name: String,
    pub title: String,
    pub offset_len: i64,
    pub write_basket: u64,
    pub entry_number: i64,
    pub max_baskets: u64,
    pub entries: i64,
    pub first_entry: i64,
    pub tot_bytes: i64,
    pub zip_bytes: i64,
    pub leaves: Vec<Leaf>,
    pub bytes: Vec<u64>,
    /// where in the record the table of basket sizes starts
    pub bytes_at: u64,
    pub entry: Vec<u64>,
    pub seek: Vec<u64>,
    pub fname: String,
    pub class_name: String,
}
#[derive(Debug)]
pub struct Tree {
    pub name: String,
    pub title: String,
    pub entries: i64,
    pub branches: Vec<Branch>,
    /// objects the leaf list of the tree refers to
    pub leaf_refs: Vec<u64>,
}
pub struct Basket {
    pub key: Key,
    pub buf_size: i64,
    pub nev_size: i64,
    pub nev: u64,
    pub last: u64,
}

/// cursor over one buffer; positions handed out include `base` (the key length)
pub struct Cur<'a> {
    d: &'a [u8],
    p: usize,
    base: u64,
    /// class tags seen, by the position references use
    classes: BTreeMap<u64, String>,
    /// objects seen, by the position references use
    objects: BTreeMap<u64, String>,
}
impl<'a> Cur<'a> {
    pub fn new(d: &'a [u8], base: u64) -> Cur<'a> {
        Cur { d, p: 0, base, classes: BTreeMap::new(), objects: BTreeMap::new() }
    }
    pub fn pos(&self) -> u64 {
        self.p as u64
    }
    pub fn left(&self) -> usize {
        self.d.len() - self.p
    }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.left() {
            return Err(format!("{n} bytes wanted at {} of a record of {}", self.p, self.d.len()));
        }
        let r = &self.d[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    fn be(&mut self, n: usize) -> R<u64> {
        Ok(self.take(n)?.iter().fold(0u64, |a, b| a << 8 | *b as u64))
    }
    pub fn u8(&mut self) -> R<u64> {
        self.be(1)
    }
    pub fn u16(&mut self) -> R<u64> {
        self.be(2)
    }
    pub fn u32(&mut self) -> R<u64> {
        self.be(4)
    }
    pub fn i16(&mut self) -> R<i64> {
        Ok(self.be(2)? as i16 as i64)
    }
    pub fn i32(&mut self) -> R<i64> {
        Ok(self.be(4)? as i32 as i64)
    }
    pub fn i64(&mut self) -> R<i64> {
        Ok(self.be(8)? as i64)
    }
    /// a size or position, which is never negative
    pub fn len(&mut self, what: &str) -> R<u64> {
        let v = self.i32()?;
        u64::try_from(v).map_err(|_| format!("{what} is {v}"))
    }
    pub fn seek(&mut self, big: bool, what: &str) -> R<u64> {
        let v = if big { self.i64()? } else { self.i32()? };
        u64::try_from(v).map_err(|_| format!("{what} is {v}"))
    }
    pub fn str(&mut self) -> R<String> {
        let mut n = self.u8()?;
        if n == 255 {
            n = self.u32()?;
        }
        let b = self.take(n as usize)?;
        String::from_utf8(b.to_vec()).map_err(|_| "a name that is not text".to_string())
    }
    fn cstr(&mut self) -> R<String> {
        let mut s = vec![];
        loop {
            match self.u8()? {
                0 => break,
                c => s.push(c as u8),
            }
        }
        String::from_utf8(s).map_err(|_| "a class name that is not text".to_string())
    }
    /// byte count and version: (end of the object, version)
    fn head(&mut self, what: &str) -> R<(usize, i64)> {
        let n = self.u32()?;
        if n & 0x4000_0000 == 0 {
            return Err(format!("{what}: byte count {n:#x} without its mark"));
        }
        let n = (n & 0x3fff_ffff) as usize;
        if n < 2 || n > self.left() {
            return Err(format!("{what}: byte count {n} with {} bytes left", self.left()));
        }
        let end = self.p + n;
        Ok((end, self.i16()?))
    }
    fn tail(&self, end: usize, what: &str) -> R<()> {
        if self.p != end {
            return Err(format!("{what}: ends at {} and its byte count says {end}", self.p));
        }
        Ok(())
    }
    fn skip_to(&mut self, end: usize, what: &str) -> R<()> {
        if self.p > end {
            return Err(format!("{what}: at {} after its end {end}", self.p));
        }
        self.p = end;
        Ok(())
    }
    fn tobject(&mut self) -> R<()> {
        let v = self.u16()?;
        if v & 0x4000 != 0 {
            return Err(format!("TObject version {v:#x}"));
        }
        let _id = self.u32()?;
        let bits = self.u32()?;
        if bits & 0x10 != 0 {
            self.u16()?;
        }
        Ok(())
    }
    fn tnamed(&mut self) -> R<(String, String)> {
        let (end, _) = self.head("TNamed")?;
        self.tobject()?;
        let r = (self.str()?, self.str()?);
        self.tail(end, "TNamed")?;
        Ok(r)
    }
    fn skip_obj(&mut self, what: &str) -> R<()> {
        let (end, _) = self.head(what)?;
        self.skip_to(end, what)
    }
    /// an object by pointer: nil, a reference to one seen before, or a new one
    fn any(&mut self, what: &str) -> R<Any> {
        let start = self.p as u64 + self.base;
        let n = self.u32()?;
        if n == 0 {
            return Ok(Any::Nil);
        }
        if n & 0x4000_0000 == 0 {
            return Err(format!("{what}: an object whose byte count is {n:#x}"));
        }
        let n = (n & 0x3fff_ffff) as usize;
        if n < 4 || n > self.left() {
            return Err(format!("{what}: byte count {n} with {} bytes left", self.left()));
        }
        let end = self.p + n;
        let tag_at = self.p as u64 + self.base;
        let tag = self.u32()?;
        let class = if tag == 0xffff_ffff {
            let c = self.cstr()?;
            self.classes.insert(tag_at + 2, c.clone());
            c
        } else if tag & 0x8000_0000 != 0 {
            match self.classes.get(&(tag & 0x7fff_ffff)) {
                Some(c) => c.clone(),
                None => return Err(format!("{what}: class reference {:#x} to no class tag", tag)),
            }
        } else {
            self.tail(end, "object reference")?;
            return match self.objects.get(&tag) {
                Some(c) => Ok(Any::Ref(tag, c.clone())),
                None => Err(format!("{what}: reference {tag} to no object")),
            };
        };
        self.objects.insert(start + 2, class.clone());
        Ok(Any::New { class, end, at: start + 2 })
    }
    /// the common start of an object array: the number of members
    fn objarray(&mut self, what: &str) -> R<(usize, u64)> {
        let (end, _) = self.head(what)?;
        self.tobject()?;
        self.str()?;
        let n = self.len("number of objects")?;
        let _low = self.i32()?;
        Ok((end, n))
    }
}
enum Any {
    Nil,
    Ref(u64, String),
    New { class: String, end: usize, at: u64 },
}

pub fn header(d: &[u8]) -> R<Header> {
    let mut c = Cur::new(d, 0);
    if c.take(4)? != b"root" {
        return Err("no magic".into());
    }
    let v = c.i32()?;
    let big = v >= 1_000_000;
    let begin = c.len("begin")?;
    let end = c.seek(big, "end")?;
    let seek_free = c.seek(big, "seek_free")?;
    let nbytes_free = c.len("nbytes_free")?;
    let nfree = c.i32()?;
    let nbytes_name = c.len("nbytes_name")?;
    let units = c.u8()?;
    let _compression = c.i32()?;
    let seek_info = c.seek(big, "seek_info")?;
    let nbytes_info = c.len("nbytes_info")?;
    if units != if big { 8 } else { 4 } {
        return Err(format!("units {units} in a file of version {v}"));
    }
    Ok(Header { version: v, begin, end, seek_free, nbytes_free, nfree, nbytes_name, units, seek_info, nbytes_info })
}

pub fn key(d: &[u8], at: u64) -> R<Key> {
    let mut c = Cur::new(d, 0);
    let n = c.i32()?;
    if n <= 0 {
        return Err(format!("a record of {n} bytes"));
    }
    let vers = c.i16()?;
    let big = vers > 1000;
    let obj_len = c.len("object length")?;
    let _date = c.u32()?;
    let kl = c.i16()?;
    if kl <= 0 {
        return Err(format!("key length {kl}"));
    }
    let cycle = c.i16()?;
    let seek = c.seek(big, "seek_key")?;
    let pdir = c.seek(big, "seek_pdir")?;
    let class = c.str()?;
    let name = c.str()?;
    let title = c.str()?;
    Ok(Key { at, nbytes: n as u64, vers, obj_len, key_len: kl as u64, cycle, seek, pdir, class, name, title, head: c.pos() })
}

pub fn dir(d: &[u8]) -> R<Dir> {
    let mut c = Cur::new(d, 0);
    let v = c.i16()?;
    c.take(8)?;
    let big = v > 1000;
    Ok(Dir {
        nbytes_keys: c.len("nbytes_keys")?,
        nbytes_name: c.len("nbytes_name")?,
        seek_dir: c.seek(big, "seek_dir")?,
        seek_parent: c.seek(big, "seek_parent")?,
        seek_keys: c.seek(big, "seek_keys")?,
    })
}

/// (first, last) of every segment in the free list
pub fn free_list(d: &[u8]) -> R<Vec<(u64, u64)>> {
    let mut c = Cur::new(d, 0);
    let mut v = vec![];
    while c.left() > 0 {
        let big = c.i16()? > 1000;
        v.push((c.seek(big, "first free byte")?, c.seek(big, "last free byte")?));
    }
    Ok(v)
}

fn leaf(c: &mut Cur, class: String, at: u64) -> R<Leaf> {
    let (end, _) = c.head(&class)?;
    let (tend, _) = c.head("TLeaf")?;
    let (name, title) = c.tnamed()?;
    let len = c.i32()?;
    let etype = c.i32()?;
    let _offset = c.i32()?;
    let _hasrange = c.u8()?;
    let unsigned = c.u8()?;
    if !matches!(c.any("leaf count")?, Any::Nil) {
        return Err("a leaf with a counter".into());
    }
    c.tail(tend, "TLeaf")?;
    let body = match class.as_str() {
        "TLeafB" | "TLeafO" => 2,
        "TLeafS" => 4,
        "TLeafI" | "TLeafF" | "TLeafC" | "TLeafElement" => 8,
        "TLeafL" | "TLeafD" => 16,
        _ => return Err(format!("leaf of class {class}")),
    };
    c.take(body)?;
    c.tail(end, &class)?;
    Ok(Leaf { class, name, title, len, etype, unsigned: unsigned != 0, at })
}

fn table(c: &mut Cur, n: u64, wide: bool, what: &str) -> R<Vec<u64>> {
    if c.u8()? != 1 {
        return Err(format!("{what} is not there"));
    }
    (0..n).map(|_| c.seek(wide, what)).collect()
}

fn tbranch(c: &mut Cur, class: String) -> R<Branch> {
    let (end, _) = c.head("TBranch")?;
    let (name, title) = c.tnamed()?;
    c.skip_obj("TAttFill")?;
    let _compress = c.i32()?;
    let _basket_size = c.i32()?;
    let offset_len = c.i32()?;
    let write_basket = c.len("write_basket")?;
    let entry_number = c.i64()?;
    c.skip_obj("TIOFeatures")?;
    let _offset = c.i32()?;
    let max_baskets = c.len("max_baskets")?;
    let _split = c.i32()?;
    let entries = c.i64()?;
    let first_entry = c.i64()?;
    let tot_bytes = c.i64()?;
    let zip_bytes = c.i64()?;
    let (e, n) = c.objarray("branches")?;
    if n != 0 {
        return Err("a branch of branches".into());
    }
    c.tail(e, "branches")?;
    let (e, n) = c.objarray("leaves")?;
    let mut leaves = vec![];
    for _ in 0..n {
        match c.any("leaf")? {
            Any::New { class, end, at } => {
                leaves.push(leaf(c, class, at)?);
                c.tail(end, "leaf")?;
            }
            _ => return Err("a branch whose leaf is not there".into()),
        }
    }
    c.tail(e, "leaves")?;
    let (e, n) = c.objarray("baskets")?;
    for _ in 0..n {
        if !matches!(c.any("basket")?, Any::Nil) {
            return Err("a basket inside the tree".into());
        }
    }
    c.tail(e, "baskets")?;
    let bytes_at = c.pos() + 1;
    let bytes = table(c, max_baskets, false, "basket bytes")?;
    let entry = table(c, max_baskets, true, "basket entries")?;
    let seek = table(c, max_baskets, true, "basket positions")?;
    let fname = c.str()?;
    c.tail(end, "TBranch")?;
    Ok(Branch {
        class,
        name,
        title,
        offset_len,
        write_basket,
        entry_number,
        max_baskets,
        entries,
        first_entry,
        tot_bytes,
        zip_bytes,
        leaves,
        bytes,
        bytes_at,
        entry,
        seek,
        fname,
        class_name: String::new(),
    })
}

fn branch(c: &mut Cur, class: String) -> R<Branch> {
    match class.as_str() {
        "TBranch" => tbranch(c, class),
        "TBranchElement" => {
            let (end, _) = c.head(&class)?;
            let mut b = tbranch(c, class)?;
            b.class_name = c.str()?;
            c.str()?;
            c.str()?;
            c.take(4 + 2 + 4 + 4 + 4 + 4)?;
            for _ in 0..2 {
                if !matches!(c.any("branch count")?, Any::Nil) {
                    return Err("a branch with a counter".into());
                }
            }
            c.tail(end, "TBranchElement")?;
            Ok(b)
        }
        _ => Err(format!("branch of class {class}")),
    }
}

/// the payload of a TTree record
pub fn tree(d: &[u8], key_len: u64) -> R<Tree> {
    let mut c = Cur::new(d, key_len);
    let c = &mut c;
    let (end, _) = c.head("TTree")?;
    let (name, title) = c.tnamed()?;
    c.skip_obj("TAttLine")?;
    c.skip_obj("TAttFill")?;
    c.skip_obj("TAttMarker")?;
    let entries = c.i64()?;
    c.take(8 * 5)?;
    c.take(4 * 4)?;
    let ncl = c.len("number of cluster ranges")?;
    c.take(8 * 6)?;
    for _ in 0..2 {
        c.u8()?;
        c.take(8 * ncl as usize)?;
    }
    c.skip_obj("TIOFeatures")?;
    let (e, n) = c.objarray("branches")?;
    let mut branches = vec![];
    for _ in 0..n {
        match c.any("branch")? {
            Any::New { class, end, .. } => {
                branches.push(branch(c, class)?);
                c.tail(end, "branch")?;
            }
            _ => return Err("a tree whose branch is not there".into()),
        }
    }
    c.tail(e, "branches")?;
    let (e, n) = c.objarray("leaves")?;
    let mut leaf_refs = vec![];
    for _ in 0..n {
        match c.any("leaf of the tree")? {
            Any::Ref(at, _) => leaf_refs.push(at),
            _ => return Err("the leaf list of the tree does not refer to the leaves".into()),
        }
    }
    c.tail(e, "leaves")?;
    for _ in 0..7 {
        if !matches!(c.any("tree appendix")?, Any::Nil) {
            return Err("an unexpected object behind the leaves".into());
        }
    }
    c.tail(end, "TTree")?;
    if c.left() > 0 {
        return Err(format!("{} bytes behind the tree", c.left()));
    }
    Ok(Tree { name, title, entries, branches, leaf_refs })
}

/// names and versions in the streamer-info list
pub fn streamers(d: &[u8], key_len: u64) -> R<Vec<(String, i64)>> {
    let mut c = Cur::new(d, key_len);
    let c = &mut c;
    let (end, _) = c.head("TList")?;
    c.tobject()?;
    c.str()?;
    let n = c.len("number of streamers")?;
    let mut v = vec![];
    for _ in 0..n {
        match c.any("streamer")? {
            Any::New { class, end, .. } => {
                if class != "TStreamerInfo" {
                    return Err(format!("a {class} in the streamer list"));
                }
                let (e, _) = c.head(&class)?;
                let (name, _) = c.tnamed()?;
                let _sum = c.u32()?;
                let vers = c.i32()?;
                match c.any("elements")? {
                    Any::New { class, end, .. } => {
                        let (e, n) = c.objarray(&class)?;
                        for _ in 0..n {
                            match c.any("element")? {
                                Any::New { class, end, .. } => {
                                    let (e, _) = c.head(&class)?;
                                    if class == "TStreamerElement" {
                                        c.tnamed()?;
                                    } else {
                                        let (e2, _) = c.head("TStreamerElement")?;
                                        c.tnamed()?;
                                        c.skip_to(e2, "TStreamerElement")?;
                                    }
                                    c.skip_to(e, &class)?;
                                    c.tail(end, "element")?;
                                }
                                Any::Ref(..) => {}
                                Any::Nil => return Err("a streamer element that is not there".into()),
                            }
                        }
                        c.tail(e, "elements")?;
                        c.tail(end, "elements")?;
                    }
                    _ => return Err(format!("the streamer of {name} has no elements")),
                }
                c.tail(e, "TStreamerInfo")?;
                c.tail(end, "streamer")?;
                v.push((name, vers));
            }
            _ => return Err("a streamer that is not there".into()),
        }
        c.str()?;
    }
    c.tail(end, "TList")?;
    if c.left() > 0 {
        return Err(format!("{} bytes behind the streamers", c.left()));
    }
    Ok(v)
}

pub fn basket(d: &[u8], at: u64) -> R<Basket> {
    let k = key(d, at)?;
    if k.class != "TBasket" {
        return Err(format!("a {} where a basket is expected", k.class));
    }
    let mut c = Cur::new(d, 0);
    c.take(k.head as usize)?;
    let _vers = c.i16()?;
    let buf_size = c.i32()?;
    let nev_size = c.i32()?;
    let nev = c.len("number of items")?;
    let last = c.len("last")?;
    let _flag = c.u8()?;
    if c.pos() != k.key_len {
        return Err(format!("the basket header takes {} bytes and says {}", c.pos(), k.key_len));
    }
    Ok(Basket { key: k, buf_size, nev_size, nev, last })
}
