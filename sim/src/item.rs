//! Column model: every column is (type, length, value mode, seed); the value of
//! row i is a pure function of these, so the reference model needs no storage.
use crate::rng::{mix, mix2};
use oxyroot::{Marshaler, RBuffer, UnmarshalerInto};

pub trait Item:
    Marshaler + UnmarshalerInto<Item = Self> + Default + Clone + Send + std::fmt::Debug + 'static
{
    fn gen(seed: u64, mode: u64, i: u64) -> Self;
    /// bit-exact equality
    fn same(&self, o: &Self) -> bool;
    /// bytes one item needs in the file at least
    fn cost(&self) -> usize;
    /// expected bytes in ROOT's big-endian encoding as one element of a basket (without vector header)
    fn encode(&self, out: &mut Vec<u8>);
    fn read_raw(r: &mut RBuffer) -> Self {
        r.read_object_into::<Self>().unwrap()
    }
}

fn bits(seed: u64, mode: u64, i: u64) -> u64 {
    let r = mix2(seed, i);
    match mode % 8 {
        0 => i,                       // counter: values identify their row
        1 => r,                       // random bits
        2 => match r % 8 {
            // extremes
            0 => 0,
            1 => u64::MAX,
            2 => 1 << 63,
            3 => i64::MAX as u64,
            4 => 0x7ff0_0000_0000_0000,
            5 => 0x7ff8_0000_0000_0001,
            6 => 0x8000_0000_8000_0000,
            _ => r,
        },
        3 => mix(seed),               // constant
        4 => 0x4000_0000_0000_0000 | (i & 0xffff), // looks like a byte count
        5 => i.wrapping_mul(0x0101_0101_0101_0101),
        6 => (i << 32) | i,
        _ => !i,
    }
}

macro_rules! prim {
    ($($t:ty, $m:ident);*) => { $(
        impl Item for $t {
            fn gen(seed: u64, mode: u64, i: u64) -> Self {
                let b = bits(seed, mode, i);
                // keep the row visible in narrow types, keep the top bits in wide ones
                if mode % 8 == 2 && std::mem::size_of::<$t>() < 8 { (b >> (64 - 8 * std::mem::size_of::<$t>() as u64)) as $t } else { b as $t }
            }
            fn same(&self, o: &Self) -> bool { self == o }
            fn cost(&self) -> usize { std::mem::size_of::<$t>() }
            fn encode(&self, out: &mut Vec<u8>) { out.extend_from_slice(&self.to_be_bytes()) }
            fn read_raw(r: &mut RBuffer) -> Self { r.$m().unwrap() }
        }
    )* }
}
prim!(i8, read_i8; u8, read_u8; i16, read_i16; u16, read_u16; i32, read_i32; u32, read_u32; i64, read_i64; u64, read_u64);

impl Item for f32 {
    fn gen(seed: u64, mode: u64, i: u64) -> Self {
        if mode % 8 == 0 {
            i as f32
        } else {
            let b = bits(seed, mode, i);
            f32::from_bits(if mode % 8 == 2 { (b >> 32) as u32 } else { b as u32 })
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
    fn cost(&self) -> usize {
        4
    }
    fn encode(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(&self.to_bits().to_be_bytes())
    }
    fn read_raw(r: &mut RBuffer) -> Self {
        r.read_f32().unwrap()
    }
}
impl Item for f64 {
    fn gen(seed: u64, mode: u64, i: u64) -> Self {
        if mode % 8 == 0 {
            i as f64
        } else {
            f64::from_bits(bits(seed, mode, i))
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
    fn cost(&self) -> usize {
        8
    }
    fn encode(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(&self.to_bits().to_be_bytes())
    }
    fn read_raw(r: &mut RBuffer) -> Self {
        r.read_f64().unwrap()
    }
}
impl Item for bool {
    fn gen(seed: u64, mode: u64, i: u64) -> Self {
        mix2(seed, if mode % 8 == 0 { i / 2 } else { i }) & 1 == 1
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn cost(&self) -> usize {
        1
    }
    fn encode(&self, out: &mut Vec<u8>) {
        out.push(*self as u8)
    }
    fn read_raw(r: &mut RBuffer) -> Self {
        r.read_bool().unwrap()
    }
}

/// length of a variable-size item: the mode selects the size profile
pub fn varlen(seed: u64, mode: u64, i: u64, elem: usize) -> usize {
    let r = mix2(seed ^ 0x1e4, i);
    match mode / 8 {
        0 => (r % 8) as usize,                 // small, often empty
        1 => 0,                                // always empty
        2 => 250 + (r % 10) as usize,          // around the 254/255 string length byte
        3 => (r % 600) as usize,               // medium
        4 => {
            // mostly small, sometimes larger than a basket
            if r % 37 == 5 {
                (33_000 + (r >> 8) as usize % 9_000) / elem.max(1)
            } else {
                (r % 12) as usize
            }
        }
        5 => (8_180 + (r as usize % 24)) / elem.max(1), // around the 8 KiB stream buffer
        6 => {
            // one big item at the front of a basket, then many tiny ones
            if i % 4096 == 0 {
                (4_000 + (r % 20_000) as usize) / elem.max(1)
            } else {
                (r % 2) as usize
            }
        }
        7 => (i % 5) as usize,
        8 => {
            // huge items (beyond 16 MB) between small ones
            if i % 3 == 1 {
                (0x0100_0000 + (r % 4096) as usize) / elem.max(1)
            } else {
                3
            }
        }
        9 => (32_768 - 64 + r as usize % 128) / elem.max(1), // around the basket size
        // filler of an exact size: the seed is (length << 16 | how many items are one byte longer)
        100 => (seed >> 16) as usize + (i < (seed & 0xffff)) as usize,
        _ => 1,
    }
}
/// approximate mean size per mode, used to bound generated lengths
pub fn mean_len(mode: u64) -> usize {
    match mode / 8 {
        0 => 4,
        1 => 1,
        2 => 255,
        3 => 300,
        4 => 1000,
        5 => 8192,
        6 => 8,
        7 => 2,
        8 => 6_000_000,
        9 => 32_768,
        _ => 1,
    }
}

impl Item for String {
    fn gen(seed: u64, mode: u64, i: u64) -> Self {
        let n = varlen(seed, mode, i, 1);
        if n > 200_000 {
            // huge: cheap, but the ends say which item it is
            let id = format!("{i:016}");
            let mut s = String::with_capacity(n);
            s.push_str(&id);
            let mut v = s.into_bytes();
            v.resize(n - 16, b'Z');
            v.extend_from_slice(id.as_bytes());
            return String::from_utf8(v).unwrap();
        }
        let style = mode % 8;
        let mut s = String::with_capacity(n + 4);
        let head = if style == 0 { format!("{i}:") } else { String::new() };
        if n >= head.len() {
            s.push_str(&head);
        }
        let mut k = 0u64;
        let base = mix2(seed, i);
        while s.len() < n {
            let room = n - s.len();
            let r = mix2(base, k);
            k += 1;
            match style {
                // ASCII
                0 | 1 | 5 => s.push((b'!' + (r % 94) as u8) as char),
                2 if room >= 3 => s.push(*['é', 'ß', '日', '€', 'ü', '\u{7f}'].get((r % 6) as usize).unwrap()),
                // zero bytes and the '@' (0x40) a byte count starts with
                4 => s.push(if r % 3 == 0 { '@' } else { '\0' }),
                3 => s.push('Z'),
                6 if room >= 4 => s.push(*['🦀', '𝄞', 'a'].get((r % 3) as usize).unwrap()),
                _ => s.push((b'a' + (r % 26) as u8) as char),
            }
        }
        s
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn cost(&self) -> usize {
        self.len() + 1
    }
    fn encode(&self, out: &mut Vec<u8>) {
        if self.len() < 255 {
            out.push(self.len() as u8);
        } else {
            out.push(255);
            out.extend_from_slice(&(self.len() as u32).to_be_bytes());
        }
        out.extend_from_slice(self.as_bytes());
    }
}

impl<T: Item> Item for Vec<T> {
    fn gen(seed: u64, mode: u64, i: u64) -> Self {
        let n = varlen(seed, mode, i, std::mem::size_of::<T>());
        if n > 100_000 {
            // huge: cheap, regular contents
            let v = T::gen(seed, mode % 8, i);
            return vec![v; n];
        }
        let s = mix2(seed, i);
        (0..n as u64).map(|k| T::gen(s, mode % 8, i.wrapping_add(k))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
    fn cost(&self) -> usize {
        4 + self.len() * std::mem::size_of::<T>()
    }
    fn encode(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(&(self.len() as u32).to_be_bytes());
        for x in self {
            x.encode(out);
        }
    }
}

macro_rules! arr {
    ($($t:ty, $n:literal);*) => { $(
        impl Item for [$t; $n] {
            fn gen(seed: u64, mode: u64, i: u64) -> Self {
                let s = mix2(seed, i);
                std::array::from_fn(|k| <$t>::gen(s, mode % 8, i.wrapping_mul(31).wrapping_add(k as u64)))
            }
            fn same(&self, o: &Self) -> bool { self.iter().zip(o.iter()).all(|(a, b)| a.same(b)) }
            fn cost(&self) -> usize { std::mem::size_of::<$t>() * $n }
            fn encode(&self, out: &mut Vec<u8>) { for x in self { x.encode(out) } }
        }
    )* }
}
arr!(i8, 5; u8, 32; i16, 7; u16, 1; i32, 3; u32, 16; i64, 2; u64, 9; f32, 32; f64, 3; f64, 1; i32, 31; bool, 4; i8, 1);

/// (type name in specs, bytes per item, writable with a variable size)
pub const TYPES: &[(&str, usize, bool)] = &[
    ("i8", 1, false),
    ("u8", 1, false),
    ("i16", 2, false),
    ("u16", 2, false),
    ("i32", 4, false),
    ("u32", 4, false),
    ("i64", 8, false),
    ("u64", 8, false),
    ("f32", 4, false),
    ("f64", 8, false),
    ("bool", 1, false),
    ("String", 1, true),
    ("Vec<i8>", 1, true),
    ("Vec<u8>", 1, true),
    ("Vec<i16>", 2, true),
    ("Vec<u16>", 2, true),
    ("Vec<i32>", 4, true),
    ("Vec<u32>", 4, true),
    ("Vec<i64>", 8, true),
    ("Vec<u64>", 8, true),
    ("Vec<f32>", 4, true),
    ("Vec<f64>", 8, true),
    ("[i8;5]", 5, false),
    ("[u8;32]", 32, false),
    ("[i16;7]", 14, false),
    ("[u16;1]", 2, false),
    ("[i32;3]", 12, false),
    ("[u32;16]", 64, false),
    ("[i64;2]", 16, false),
    ("[u64;9]", 72, false),
    ("[f32;32]", 128, false),
    ("[f64;3]", 24, false),
    ("[f64;1]", 8, false),
    ("[i32;31]", 124, false),
    ("[bool;4]", 4, false),
    ("[i8;1]", 1, false),
];
pub fn type_size(t: &str) -> usize {
    TYPES.iter().find(|x| x.0 == t).map(|x| x.1).unwrap_or(8)
}
pub fn is_var(t: &str) -> bool {
    TYPES.iter().find(|x| x.0 == t).map(|x| x.2).unwrap_or(false)
}

#[macro_export]
macro_rules! with_type {
    ($name:expr, $T:ident => $e:expr) => {{
        macro_rules! arm { ($t:ty) => {{ type $T = $t; $e }}; }
        match $name {
            "i8" => arm!(i8),
            "u8" => arm!(u8),
            "i16" => arm!(i16),
            "u16" => arm!(u16),
            "i32" => arm!(i32),
            "u32" => arm!(u32),
            "i64" => arm!(i64),
            "u64" => arm!(u64),
            "f32" => arm!(f32),
            "f64" => arm!(f64),
            "bool" => arm!(bool),
            "String" => arm!(String),
            "Vec<i8>" => arm!(Vec<i8>),
            "Vec<u8>" => arm!(Vec<u8>),
            "Vec<i16>" => arm!(Vec<i16>),
            "Vec<u16>" => arm!(Vec<u16>),
            "Vec<i32>" => arm!(Vec<i32>),
            "Vec<u32>" => arm!(Vec<u32>),
            "Vec<i64>" => arm!(Vec<i64>),
            "Vec<u64>" => arm!(Vec<u64>),
            "Vec<f32>" => arm!(Vec<f32>),
            "Vec<f64>" => arm!(Vec<f64>),
            "[i8;5]" => arm!([i8; 5]),
            "[u8;32]" => arm!([u8; 32]),
            "[i16;7]" => arm!([i16; 7]),
            "[u16;1]" => arm!([u16; 1]),
            "[i32;3]" => arm!([i32; 3]),
            "[u32;16]" => arm!([u32; 16]),
            "[i64;2]" => arm!([i64; 2]),
            "[u64;9]" => arm!([u64; 9]),
            "[f32;32]" => arm!([f32; 32]),
            "[f64;3]" => arm!([f64; 3]),
            "[f64;1]" => arm!([f64; 1]),
            "[i32;31]" => arm!([i32; 31]),
            "[bool;4]" => arm!([bool; 4]),
            "[i8;1]" => arm!([i8; 1]),
            other => panic!("harness: unknown column type {other}"),
        }
    }};
}
