//! Sparse paged file contents. Pages are either filled with one byte value or
//! real data, so files of several gigabytes of regular data stay small. Pages
//! are allocated with the system allocator directly: they stand for the disk,
//! not for the heap of the process under test.
use std::alloc::{GlobalAlloc, Layout, System};

pub const PAGE: usize = 4096;
pub const MAX_FILE: u64 = 1 << 36;

enum Page {
    Fill(u8),
    Data(*mut u8),
}

#[derive(Default)]
pub struct Store {
    pages: Vec<Page>,
    len: u64,
}
unsafe impl Send for Store {}

fn lay() -> Layout {
    unsafe { Layout::from_size_align_unchecked(PAGE, 64) }
}

impl Drop for Page {
    fn drop(&mut self) {
        if let Page::Data(p) = self {
            unsafe { System.dealloc(*p, lay()) }
        }
    }
}

impl Page {
    fn make_data(&mut self) -> &mut [u8] {
        if let Page::Fill(b) = self {
            let b = *b;
            unsafe {
                let p = System.alloc(lay());
                if p.is_null() {
                    libc::_exit(98);
                }
                std::ptr::write_bytes(p, b, PAGE);
                *self = Page::Data(p);
            }
        }
        match self {
            Page::Data(p) => unsafe { std::slice::from_raw_parts_mut(*p, PAGE) },
            _ => unreachable!(),
        }
    }
}

impl Store {
    pub fn from_bytes(b: &[u8]) -> Store {
        let mut s = Store::default();
        s.write(0, b);
        s
    }
    pub fn len(&self) -> u64 {
        self.len
    }
    fn grow(&mut self, n: usize) {
        while self.pages.len() < n {
            self.pages.push(Page::Fill(0));
        }
    }
    pub fn write(&mut self, off: u64, data: &[u8]) {
        if data.is_empty() {
            return;
        }
        let end = off + data.len() as u64;
        self.grow(((end as usize) + PAGE - 1) / PAGE);
        let mut pos = off as usize;
        let mut d = data;
        while !d.is_empty() {
            let pg = pos / PAGE;
            let o = pos % PAGE;
            let n = (PAGE - o).min(d.len());
            let chunk = &d[..n];
            let b0 = chunk[0];
            let uniform = chunk.iter().all(|b| *b == b0);
            let page = &mut self.pages[pg];
            let keep = match page {
                Page::Fill(b) => uniform && (*b == b0 || n == PAGE),
                Page::Data(_) => uniform && n == PAGE,
            };
            if keep {
                *page = Page::Fill(b0);
            } else {
                page.make_data()[o..o + n].copy_from_slice(chunk);
            }
            d = &d[n..];
            pos += n;
        }
        if end > self.len {
            self.len = end;
        }
    }
    /// copies into `out`, returns the number of bytes available
    pub fn read(&self, off: u64, out: &mut [u8]) -> usize {
        if off >= self.len {
            return 0;
        }
        let n = out.len().min((self.len - off) as usize);
        let mut done = 0;
        while done < n {
            let pos = off as usize + done;
            let o = pos % PAGE;
            let k = (PAGE - o).min(n - done);
            match self.pages.get(pos / PAGE) {
                Some(Page::Data(p)) => unsafe {
                    std::ptr::copy_nonoverlapping(p.add(o), out[done..].as_mut_ptr(), k)
                },
                Some(Page::Fill(b)) => out[done..done + k].fill(*b),
                None => out[done..done + k].fill(0),
            }
            done += k;
        }
        n
    }
    pub fn truncate(&mut self, len: u64) {
        if len < self.len {
            let np = ((len as usize) + PAGE - 1) / PAGE;
            self.pages.truncate(np);
            let o = (len as usize) % PAGE;
            if o != 0 && np > 0 && np <= self.pages.len() {
                let skip = matches!(self.pages[np - 1], Page::Fill(0));
                if !skip {
                    self.pages[np - 1].make_data()[o..].fill(0);
                }
            }
        } else {
            self.grow(((len as usize) + PAGE - 1) / PAGE);
        }
        self.len = len;
    }
    pub fn to_vec(&self) -> Vec<u8> {
        let mut v = vec![0u8; self.len as usize];
        self.read(0, &mut v);
        v
    }
    pub fn hash(&self) -> u64 {
        let mut buf = [0u8; PAGE];
        let mut h = crate::rng::mix(self.len);
        let mut off = 0;
        while off < self.len {
            let n = self.read(off, &mut buf);
            for w in buf[..n].chunks(8) {
                let mut a = [0u8; 8];
                a[..w.len()].copy_from_slice(w);
                h = (h ^ u64::from_le_bytes(a)).wrapping_mul(0x100_0000_01b3).rotate_left(23);
            }
            off += n as u64;
        }
        crate::rng::mix(h)
    }
}
