//! PRNG, choice recorder, tiny JSON.
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let mut n = || {
            s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        };
        let a = n();
        let b = n();
        Rng(a, b | 1)
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { return 0; }
        ((self.next() >> 11) as u128 * n as u128 >> 53) as u64
    }
    #[inline]
    pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    #[inline]
    pub fn chance(&mut self, p: f64) -> bool { ((self.next() >> 11) as f64) < p * 9007199254740992.0 }
    pub fn u128(&mut self) -> u128 { (self.next() as u128) << 64 | self.next() as u128 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.usize(v.len()); &v[i] }
    /// index by integer weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u64 = w.iter().map(|x| *x as u64).sum();
        let mut x = self.below(t.max(1));
        for (i, a) in w.iter().enumerate() {
            if x < *a as u64 { return i; }
            x -= *a as u64;
        }
        0
    }
}
pub fn hash64(x: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for v in x {
        h ^= *v;
        h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    h
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// Every nondeterministic decision of a run goes through here. Choice 0 is always the benign one
/// (keep running the same CPU, read the newest value, no fault).
pub struct Chooser {
    pub rng: Rng,
    pub rec: Vec<u16>,
    pub forced: Option<Vec<u16>>,
    pub pos: usize,
}
impl Chooser {
    pub fn new(seed: u64) -> Chooser { Chooser { rng: Rng::new(seed), rec: Vec::new(), forced: None, pos: 0 } }
    pub fn reset(&mut self, seed: u64, forced: Option<Vec<u16>>) {
        self.rng = Rng::new(seed);
        self.rec.clear();
        self.forced = forced;
        self.pos = 0;
    }
    #[inline]
    fn record(&mut self, n: usize, f: impl FnOnce(&mut Rng) -> usize) -> usize {
        let v = match &self.forced {
            Some(l) => (*l.get(self.pos).unwrap_or(&0) as usize).min(n - 1),
            None => f(&mut self.rng),
        };
        self.pos += 1;
        self.rec.push(v as u16);
        v
    }
    #[inline]
    pub fn with(&mut self, n: usize, f: impl FnOnce(&mut Rng) -> usize) -> usize {
        if n <= 1 { return 0; }
        self.record(n, f)
    }
    #[inline]
    pub fn coin(&mut self, p: f64) -> bool {
        if p <= 0.0 && self.forced.is_none() {
            // still recorded, so that replay positions do not depend on probabilities
            self.pos += 1;
            self.rec.push(0);
            return false;
        }
        self.record(2, |r| r.chance(p) as usize) == 1
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Num(f64), Str(String), Arr(Vec<J>), Obj(BTreeMap<String, J>) }
impl J {
    pub fn obj() -> J { J::Obj(BTreeMap::new()) }
    pub fn set(mut self, k: &str, v: impl Into<J>) -> J {
        if let J::Obj(m) = &mut self { m.insert(k.into(), v.into()); }
        self
    }
    pub fn put(&mut self, k: &str, v: impl Into<J>) { if let J::Obj(m) = self { m.insert(k.into(), v.into()); } }
    pub fn get(&self, k: &str) -> &J {
        static N: J = J::Null;
        if let J::Obj(m) = self { m.get(k).unwrap_or(&N) } else { &N }
    }
    pub fn str(&self) -> &str { if let J::Str(s) = self { s } else { "" } }
    pub fn num(&self) -> f64 { match self { J::Num(n) => *n, J::Bool(b) => *b as u8 as f64, _ => 0.0 } }
    pub fn int(&self) -> i64 { self.num() as i64 }
    pub fn bool(&self) -> bool { matches!(self, J::Bool(true)) }
    pub fn arr(&self) -> &[J] { if let J::Arr(a) = self { a } else { &[] } }
    pub fn u128(&self) -> u128 {
        match self {
            J::Str(s) => u128::from_str_radix(s.trim_start_matches("0x"), 16).unwrap_or(0),
            J::Num(n) => *n as u128,
            _ => 0,
        }
    }
    pub fn text(&self) -> String { let mut s = String::new(); self.w(&mut s, 0); s }
    fn w(&self, s: &mut String, d: usize) {
        match self {
            J::Null => s.push_str("null"),
            J::Bool(b) => { let _ = write!(s, "{b}"); }
            J::Num(n) => {
                if n.fract() == 0.0 && n.abs() < 9e15 { let _ = write!(s, "{}", *n as i64); } else { let _ = write!(s, "{n}"); }
            }
            J::Str(x) => {
                s.push('"');
                for c in x.chars() {
                    match c {
                        '"' => s.push_str("\\\""),
                        '\\' => s.push_str("\\\\"),
                        '\n' => s.push_str("\\n"),
                        '\t' => s.push_str("\\t"),
                        c if (c as u32) < 32 => { let _ = write!(s, "\\u{:04x}", c as u32); }
                        c => s.push(c),
                    }
                }
                s.push('"');
            }
            J::Arr(a) => {
                s.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 { s.push_str(", "); }
                    if d < 3 && matches!(x, J::Obj(_)) { s.push('\n'); for _ in 0..=d { s.push(' '); } }
                    x.w(s, d + 1);
                }
                s.push(']');
            }
            J::Obj(m) => {
                s.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 { s.push_str(", "); }
                    if d < 2 { s.push('\n'); for _ in 0..=d { s.push(' '); } }
                    J::Str(k.clone()).w(s, d);
                    s.push_str(": ");
                    v.w(s, d + 1);
                }
                s.push('}');
            }
        }
    }
    pub fn parse(t: &str) -> Result<J, String> {
        let b = t.as_bytes();
        let mut i = 0;
        let v = Self::val(b, &mut i)?;
        Ok(v)
    }
    fn ws(b: &[u8], i: &mut usize) { while *i < b.len() && b[*i].is_ascii_whitespace() { *i += 1; } }
    fn val(b: &[u8], i: &mut usize) -> Result<J, String> {
        Self::ws(b, i);
        match b.get(*i) {
            None => Err("eof".into()),
            Some(b'{') => {
                *i += 1;
                let mut m = BTreeMap::new();
                loop {
                    Self::ws(b, i);
                    if b.get(*i) == Some(&b'}') { *i += 1; return Ok(J::Obj(m)); }
                    if b.get(*i) == Some(&b',') { *i += 1; continue; }
                    let k = Self::val(b, i)?;
                    Self::ws(b, i);
                    if b.get(*i) != Some(&b':') { return Err(format!("expected : at {i}")); }
                    *i += 1;
                    let v = Self::val(b, i)?;
                    m.insert(k.str().to_string(), v);
                }
            }
            Some(b'[') => {
                *i += 1;
                let mut a = vec![];
                loop {
                    Self::ws(b, i);
                    if b.get(*i) == Some(&b']') { *i += 1; return Ok(J::Arr(a)); }
                    if b.get(*i) == Some(&b',') { *i += 1; continue; }
                    a.push(Self::val(b, i)?);
                }
            }
            Some(b'"') => {
                *i += 1;
                let mut s = Vec::new();
                while *i < b.len() && b[*i] != b'"' {
                    if b[*i] == b'\\' {
                        *i += 1;
                        match b[*i] {
                            b'n' => s.push(b'\n'),
                            b't' => s.push(b'\t'),
                            b'u' => {
                                let c = u32::from_str_radix(std::str::from_utf8(&b[*i + 1..*i + 5]).unwrap_or("0"), 16).unwrap_or(0);
                                *i += 4;
                                let mut t = [0; 4];
                                s.extend_from_slice(char::from_u32(c).unwrap_or('?').encode_utf8(&mut t).as_bytes());
                            }
                            c => s.push(c),
                        }
                    } else {
                        s.push(b[*i]);
                    }
                    *i += 1;
                }
                *i += 1;
                Ok(J::Str(String::from_utf8_lossy(&s).into_owned()))
            }
            Some(b't') => { *i += 4; Ok(J::Bool(true)) }
            Some(b'f') => { *i += 5; Ok(J::Bool(false)) }
            Some(b'n') => { *i += 4; Ok(J::Null) }
            _ => {
                let s = *i;
                while *i < b.len() && (b[*i] == b'-' || b[*i] == b'+' || b[*i] == b'.' || b[*i] == b'e' || b[*i] == b'E' || b[*i].is_ascii_digit()) { *i += 1; }
                std::str::from_utf8(&b[s..*i]).ok().and_then(|x| x.parse().ok()).map(J::Num).ok_or(format!("bad json at {s}"))
            }
        }
    }
}
impl From<&str> for J { fn from(s: &str) -> J { J::Str(s.into()) } }
impl From<String> for J { fn from(s: String) -> J { J::Str(s) } }
impl From<bool> for J { fn from(s: bool) -> J { J::Bool(s) } }
impl From<f64> for J { fn from(s: f64) -> J { J::Num(s) } }
impl From<u64> for J { fn from(s: u64) -> J { J::Num(s as f64) } }
impl From<usize> for J { fn from(s: usize) -> J { J::Num(s as f64) } }
impl From<i64> for J { fn from(s: i64) -> J { J::Num(s as f64) } }
impl From<u128> for J { fn from(s: u128) -> J { J::Str(format!("0x{s:x}")) } }
impl<T: Into<J>> From<Vec<T>> for J { fn from(v: Vec<T>) -> J { J::Arr(v.into_iter().map(Into::into).collect()) } }
