//! Minimal JSON value, parser and printer (no dependency, stable key order).
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    B(bool),
    I(i64),
    F(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn obj() -> J {
        J::O(Vec::new())
    }
    pub fn set(mut self, k: &str, v: impl Into<J>) -> J {
        self.put(k, v);
        self
    }
    pub fn put(&mut self, k: &str, v: impl Into<J>) {
        if let J::O(o) = self {
            let v = v.into();
            if let Some(e) = o.iter_mut().find(|e| e.0 == k) {
                e.1 = v;
            } else {
                o.push((k.to_string(), v));
            }
        }
    }
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        match self {
            J::O(o) => o.iter().find(|e| e.0 == k).map(|e| &e.1).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn i(&self, k: &str) -> i64 {
        self.get(k).as_i()
    }
    pub fn u(&self, k: &str) -> u64 {
        self.get(k).as_i().max(0) as u64
    }
    pub fn s(&self, k: &str) -> &str {
        match self.get(k) {
            J::S(s) => s,
            _ => "",
        }
    }
    pub fn b(&self, k: &str) -> bool {
        matches!(self.get(k), J::B(true))
    }
    pub fn a(&self, k: &str) -> &[J] {
        match self.get(k) {
            J::A(v) => v,
            _ => &[],
        }
    }
    pub fn as_i(&self) -> i64 {
        match self {
            J::I(i) => *i,
            J::F(f) => *f as i64,
            J::B(b) => *b as i64,
            _ => 0,
        }
    }
    pub fn as_s(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => "",
        }
    }
    pub fn as_a(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => &[],
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let b = s.as_bytes();
        let mut p = 0;
        let v = parse_value(b, &mut p)?;
        skip_ws(b, &mut p);
        if p != b.len() {
            return Err(format!("trailing data at {p}"));
        }
        Ok(v)
    }
    pub fn pretty(&self) -> String {
        let mut s = String::new();
        pretty(self, 0, &mut s);
        s.push('\n');
        s
    }
    pub fn size(&self) -> usize {
        match self {
            J::A(v) => 1 + v.iter().map(|x| x.size()).sum::<usize>(),
            J::O(v) => 1 + v.iter().map(|x| x.1.size()).sum::<usize>(),
            _ => 1,
        }
    }
}

macro_rules! from_int { ($($t:ty),*) => { $(impl From<$t> for J { fn from(v: $t) -> J { J::I(v as i64) } })* } }
from_int!(i32, i64, u32, u64, usize, u8);
impl From<bool> for J {
    fn from(v: bool) -> J {
        J::B(v)
    }
}
impl From<f64> for J {
    fn from(v: f64) -> J {
        J::F(v)
    }
}
impl From<&str> for J {
    fn from(v: &str) -> J {
        J::S(v.to_string())
    }
}
impl From<String> for J {
    fn from(v: String) -> J {
        J::S(v)
    }
}
impl From<Vec<J>> for J {
    fn from(v: Vec<J>) -> J {
        J::A(v)
    }
}

fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

fn compact(v: &J, out: &mut String) {
    match v {
        J::Null => out.push_str("null"),
        J::B(b) => out.push_str(if *b { "true" } else { "false" }),
        J::I(i) => out.push_str(&i.to_string()),
        J::F(f) => {
            if f.is_finite() {
                let s = format!("{}", f);
                out.push_str(&s);
                if !s.contains('.') && !s.contains('e') {
                    out.push_str(".0");
                }
            } else {
                out.push_str("0.0")
            }
        }
        J::S(s) => esc(s, out),
        J::A(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                compact(x, out);
            }
            out.push(']');
        }
        J::O(o) => {
            out.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                esc(k, out);
                out.push(':');
                compact(x, out);
            }
            out.push('}');
        }
    }
}

fn pretty(v: &J, ind: usize, out: &mut String) {
    match v {
        J::A(a) if !a.is_empty() && v.size() > 12 => {
            out.push_str("[\n");
            for (i, x) in a.iter().enumerate() {
                out.push_str(&" ".repeat(ind + 1));
                pretty(x, ind + 1, out);
                if i + 1 < a.len() {
                    out.push(',');
                }
                out.push('\n');
            }
            out.push_str(&" ".repeat(ind));
            out.push(']');
        }
        J::O(o) if !o.is_empty() && v.size() > 12 => {
            out.push_str("{\n");
            for (i, (k, x)) in o.iter().enumerate() {
                out.push_str(&" ".repeat(ind + 1));
                esc(k, out);
                out.push_str(": ");
                pretty(x, ind + 1, out);
                if i + 1 < o.len() {
                    out.push(',');
                }
                out.push('\n');
            }
            out.push_str(&" ".repeat(ind));
            out.push('}');
        }
        _ => compact(v, out),
    }
}

impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut s = String::new();
        compact(self, &mut s);
        f.write_str(&s)
    }
}

fn skip_ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_ascii_whitespace() {
        *p += 1;
    }
}

fn parse_value(b: &[u8], p: &mut usize) -> Result<J, String> {
    skip_ws(b, p);
    if *p >= b.len() {
        return Err("eof".into());
    }
    match b[*p] {
        b'n' => lit(b, p, "null", J::Null),
        b't' => lit(b, p, "true", J::B(true)),
        b'f' => lit(b, p, "false", J::B(false)),
        b'"' => Ok(J::S(parse_str(b, p)?)),
        b'[' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                skip_ws(b, p);
                if *p < b.len() && b[*p] == b']' {
                    *p += 1;
                    return Ok(J::A(v));
                }
                if !v.is_empty() {
                    expect(b, p, b',')?;
                }
                v.push(parse_value(b, p)?);
            }
        }
        b'{' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                skip_ws(b, p);
                if *p < b.len() && b[*p] == b'}' {
                    *p += 1;
                    return Ok(J::O(v));
                }
                if !v.is_empty() {
                    expect(b, p, b',')?;
                    skip_ws(b, p);
                }
                let k = parse_str(b, p)?;
                skip_ws(b, p);
                expect(b, p, b':')?;
                v.push((k, parse_value(b, p)?));
            }
        }
        _ => {
            let st = *p;
            while *p < b.len() && matches!(b[*p], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[st..*p]).unwrap();
            if let Ok(i) = t.parse::<i64>() {
                Ok(J::I(i))
            } else {
                t.parse::<f64>().map(J::F).map_err(|_| format!("bad token at {st}"))
            }
        }
    }
}

fn expect(b: &[u8], p: &mut usize, c: u8) -> Result<(), String> {
    if *p < b.len() && b[*p] == c {
        *p += 1;
        Ok(())
    } else {
        Err(format!("expected {:?} at {}", c as char, *p))
    }
}

fn lit(b: &[u8], p: &mut usize, s: &str, v: J) -> Result<J, String> {
    if b[*p..].starts_with(s.as_bytes()) {
        *p += s.len();
        Ok(v)
    } else {
        Err(format!("bad literal at {}", *p))
    }
}

fn parse_str(b: &[u8], p: &mut usize) -> Result<String, String> {
    if *p >= b.len() || b[*p] != b'"' {
        return Err(format!("expected string at {}", *p));
    }
    *p += 1;
    let mut out: Vec<u8> = Vec::new();
    while *p < b.len() {
        match b[*p] {
            b'"' => {
                *p += 1;
                return String::from_utf8(out).map_err(|_| "utf8".into());
            }
            b'\\' => {
                *p += 1;
                let c = *b.get(*p).ok_or("eof")?;
                *p += 1;
                match c {
                    b'n' => out.push(b'\n'),
                    b'r' => out.push(b'\r'),
                    b't' => out.push(b'\t'),
                    b'b' => out.push(8),
                    b'f' => out.push(12),
                    b'u' => {
                        let h = std::str::from_utf8(b.get(*p..*p + 4).ok_or("eof")?).map_err(|_| "utf8")?;
                        let n = u32::from_str_radix(h, 16).map_err(|_| "hex")?;
                        *p += 4;
                        let ch = char::from_u32(n).unwrap_or('?');
                        let mut buf = [0; 4];
                        out.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                    }
                    c => out.push(c),
                }
            }
            c => {
                out.push(c);
                *p += 1;
            }
        }
    }
    Err("eof in string".into())
}
