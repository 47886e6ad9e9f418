//! Turns a file the library wrote into one whose records are compressed, as ROOT
//! writes them: blocks of at most 0xffffff bytes, each with a codec tag and two
//! three-byte sizes. Records stay where they are; what they no longer need is a
//! gap. The encoders are those of the codec crates; the framing and the checksum
//! of LZ4 blocks are written here.
use crate::rng::Rng;
use crate::rootfmt as fmt;
use std::io::{Read, Write};

#[derive(Clone, Debug)]
pub struct Packed {
    pub class: String,
    pub at: u64,
    pub key_len: u64,
    /// bytes on disk after compression
    pub nbytes: u64,
    /// offset in the file of each block header
    pub blocks: Vec<u64>,
    /// copies of the key of this record in the key list
    pub copies: Vec<u64>,
}

pub struct Opts {
    /// 0 zlib, 1 lzma, 2 LZ4, 3 a different one for every block
    pub codec: u64,
    /// bytes per block before compression
    pub block: usize,
    /// out of 100 records
    pub share: u64,
}

/// XXH64 with seed 0, after its specification
fn xxh64(d: &[u8]) -> u64 {
    const P: [u64; 5] = [11400714785074694791, 14029467366897019727, 1609587929392839161, 9650029242287828579, 2870177450012600261];
    let le8 = |b: &[u8]| u64::from_le_bytes(b.try_into().unwrap());
    let rnd = |a: u64, v: u64| a.wrapping_add(v.wrapping_mul(P[1])).rotate_left(31).wrapping_mul(P[0]);
    let mut i = 0;
    let mut h;
    if d.len() >= 32 {
        let mut v = [P[0].wrapping_add(P[1]), P[1], 0, 0u64.wrapping_sub(P[0])];
        while i + 32 <= d.len() {
            for k in 0..4 {
                v[k] = rnd(v[k], le8(&d[i + 8 * k..i + 8 * k + 8]));
            }
            i += 32;
        }
        h = v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18));
        for x in v {
            h ^= rnd(0, x);
            h = h.wrapping_mul(P[0]).wrapping_add(P[3]);
        }
    } else {
        h = P[4];
    }
    h = h.wrapping_add(d.len() as u64);
    while i + 8 <= d.len() {
        h ^= rnd(0, le8(&d[i..i + 8]));
        h = h.rotate_left(27).wrapping_mul(P[0]).wrapping_add(P[3]);
        i += 8;
    }
    if i + 4 <= d.len() {
        h ^= (u32::from_le_bytes(d[i..i + 4].try_into().unwrap()) as u64).wrapping_mul(P[0]);
        h = h.rotate_left(23).wrapping_mul(P[1]).wrapping_add(P[2]);
        i += 4;
    }
    while i < d.len() {
        h ^= (d[i] as u64).wrapping_mul(P[4]);
        h = h.rotate_left(11).wrapping_mul(P[0]);
        i += 1;
    }
    h ^= h >> 33;
    h = h.wrapping_mul(P[1]);
    h ^= h >> 29;
    h = h.wrapping_mul(P[2]);
    h ^ h >> 32
}

fn put3(out: &mut Vec<u8>, n: usize) {
    out.extend_from_slice(&[n as u8, (n >> 8) as u8, (n >> 16) as u8]);
}
/// one block, or nothing if it does not fit
fn block(d: &[u8], codec: u64, level: u64) -> Option<Vec<u8>> {
    let (tag, body) = match codec {
        0 => {
            let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(level as u32 % 10));
            e.write_all(d).ok()?;
            (*b"ZL\x08", e.finish().ok()?)
        }
        1 => {
            let s = xz2::stream::Stream::new_easy_encoder(level as u32 % 4, xz2::stream::Check::Crc32).ok()?;
            let mut v = vec![];
            xz2::read::XzEncoder::new_stream(d, s).read_to_end(&mut v).ok()?;
            (*b"XZ\x00", v)
        }
        _ => {
            let mode = if level % 3 == 0 { lz4::block::CompressionMode::HIGHCOMPRESSION(4) } else { lz4::block::CompressionMode::DEFAULT };
            let c = lz4::block::compress(d, Some(mode), false).ok()?;
            let mut v = xxh64(&c).to_be_bytes().to_vec();
            v.extend_from_slice(&c);
            (*b"L4\x01", v)
        }
    };
    if body.len() > 0xffffff || d.len() > 0xffffff {
        return None;
    }
    let mut out = tag.to_vec();
    put3(&mut out, body.len());
    put3(&mut out, d.len());
    out.extend_from_slice(&body);
    Some(out)
}

/// a whole record, or nothing if it does not get smaller
pub fn pack(body: &[u8], o: &Opts, r: &mut Rng) -> Option<Vec<u8>> {
    let level = r.below(10);
    let mut out = vec![];
    for c in body.chunks(o.block.clamp(1, 0xffffff)) {
        let codec = if o.codec >= 3 { r.below(3) } else { o.codec };
        out.extend_from_slice(&block(c, codec, level)?);
        if out.len() >= body.len() {
            return None;
        }
    }
    if body.is_empty() {
        return None;
    }
    Some(out)
}

pub fn squeeze(d: &mut [u8], o: &Opts, r: &mut Rng) -> fmt::R<Vec<Packed>> {
    let h = fmt::header(d)?;
    let mut recs = vec![];
    let mut at = h.begin;
    while at < d.len() as u64 {
        let k = fmt::key(&d[at as usize..], at)?;
        at += k.nbytes;
        recs.push(k);
    }
    let dir = fmt::dir(&d[(h.begin + h.nbytes_name) as usize..])?;
    let mut out: Vec<Packed> = vec![];
    // baskets first: the tables of the trees take their new sizes
    for pass in 0..2 {
        for k in &recs {
            let (start, end) = ((k.at + k.key_len) as usize, (k.at + k.nbytes) as usize);
            match (pass, k.class.as_str()) {
                (0, "TBasket") | (1, "TTree") => {}
                (1, "TList") if k.at == h.seek_info => {}
                _ => continue,
            }
            if k.class == "TTree" {
                let t = fmt::tree(&d[start..end], k.key_len)?;
                for b in &t.branches {
                    for (i, s) in b.seek.iter().enumerate() {
                        if let Some(p) = out.iter().find(|p| p.at == *s && i < b.write_basket as usize) {
                            let w = start + b.bytes_at as usize + 4 * i;
                            d[w..w + 4].copy_from_slice(&(p.nbytes as u32).to_be_bytes());
                        }
                    }
                }
            }
            if r.below(100) >= o.share {
                continue;
            }
            let body = d[start..end].to_vec();
            let level = r.below(10);
            let mut packed = vec![];
            let mut blocks = vec![];
            let mut fits = true;
            for c in body.chunks(o.block.clamp(1, 0xffffff)) {
                blocks.push(packed.len() as u64 + start as u64);
                let codec = if o.codec >= 3 { r.below(3) } else { o.codec };
                match block(c, codec, level) {
                    Some(b) => packed.extend_from_slice(&b),
                    None => fits = false,
                }
                if packed.len() >= body.len() {
                    fits = false;
                }
                if !fits {
                    break;
                }
            }
            // as ROOT, keep what does not get smaller
            if !fits || body.is_empty() {
                continue;
            }
            let nbytes = k.key_len + packed.len() as u64;
            d[start..start + packed.len()].copy_from_slice(&packed);
            let n4 = (nbytes as u32).to_be_bytes();
            d[k.at as usize..k.at as usize + 4].copy_from_slice(&n4);
            // the gap
            let gap = end - start - packed.len();
            for x in d[start + packed.len()..end].iter_mut() {
                *x = 0xa5;
            }
            if gap >= 4 {
                d[start + packed.len()..start + packed.len() + 4].copy_from_slice(&(-(gap as i32)).to_be_bytes());
            }
            let mut copies = vec![];
            if k.class == "TTree" {
                let kl = fmt::key(&d[dir.seek_keys as usize..], dir.seek_keys)?;
                let mut p = (dir.seek_keys + kl.key_len) as usize + 4;
                while p < (dir.seek_keys + kl.nbytes) as usize {
                    let Ok(c) = fmt::key(&d[p..], 0) else { break };
                    if c.seek == k.at {
                        d[p..p + 4].copy_from_slice(&n4);
                        copies.push(p as u64);
                    }
                    p += c.key_len as usize;
                }
            }
            if k.class == "TList" {
                // position of nbytes_info in the header
                let w = if h.units == 8 { 4 + 4 + 4 + 8 + 8 + 4 + 4 + 4 + 1 + 4 + 8 } else { 4 + 4 + 4 + 4 + 4 + 4 + 4 + 4 + 1 + 4 + 4 };
                d[w..w + 4].copy_from_slice(&n4);
            }
            out.push(Packed { class: k.class.clone(), at: k.at, key_len: k.key_len, nbytes, blocks, copies });
        }
    }
    Ok(out)
}
