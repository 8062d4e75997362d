//! z/Architecture emulator (64-bit mode): what LLVM emits for the general, binary floating-point and a few
//! vector instructions.
use crate::mem::{Mem, Trap, LK};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct S390Feat {
    /// Architecture level: 8 (z10), 9 (z196) .. 13 (z15)
    pub level: u8,
}
impl S390Feat {
    pub fn full() -> S390Feat { S390Feat { level: 8 } }
    pub fn bits(&self) -> u64 { self.level as u64 }
    pub fn from_bits(b: u64) -> S390Feat { S390Feat { level: b as u8 } }
}
#[derive(Clone)]
pub struct S390 {
    g: [u64; 16],
    /// vector registers; the high half of the first 16 are the floating-point registers
    v: [u128; 32],
    cc: u8,
    pub pc: u64,
    npc: u64,
    pub feat: S390Feat,
}
type R<T> = Result<T, Trap>;
const P: LK = LK { acq: 0, tear: false, ex: false, cont: false };
fn s32(v: u64) -> i32 { v as u32 as i32 }
fn ccs(r: i64, ov: bool) -> u8 { if ov { 3 } else if r == 0 { 0 } else if r < 0 { 1 } else { 2 } }
fn cmp<T: PartialOrd>(a: T, b: T) -> u8 { if a == b { 0 } else if a < b { 1 } else { 2 } }
fn mask64(i3: u32, i4: u32) -> u64 {
    let (a, b) = (i3 & 63, i4 & 63);
    let m = |x: u32| u64::MAX >> x;
    if a <= b { m(a) & !(m(b) >> 1) } else { m(a) | !(m(b) >> 1) }
}
fn fcc(a: f64, b: f64) -> u8 { if a.is_nan() || b.is_nan() { 3 } else if a == b { 0 } else if a < b { 1 } else { 2 } }
fn nan32(a: u32, b: u32, r: f32) -> u32 {
    if !r.is_nan() { return r.to_bits(); }
    let (x, y) = (f32::from_bits(a), f32::from_bits(b));
    let s = |v: u32| f32::from_bits(v).is_nan() && v & 0x40_0000 == 0;
    let p = if s(a) { a } else if s(b) { b } else if x.is_nan() { a } else if y.is_nan() { b } else { 0x7fc0_0000 };
    p | 0x40_0000
}
fn nan64(a: u64, b: u64, r: f64) -> u64 {
    if !r.is_nan() { return r.to_bits(); }
    let q = 1u64 << 51;
    let n = |v: u64| f64::from_bits(v).is_nan();
    let s = |v: u64| n(v) && v & q == 0;
    let p = if s(a) { a } else if s(b) { b } else if n(a) { a } else if n(b) { b } else { 0x7ff8_0000_0000_0000 };
    p | q
}
fn arith32(k: u32, a: u32, b: u32) -> u32 {
    let (x, y) = (f32::from_bits(a), f32::from_bits(b));
    nan32(a, b, match k { 0 => x + y, 1 => x - y, 2 => x * y, _ => x / y })
}
fn arith64(k: u32, a: u64, b: u64) -> u64 {
    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
    nan64(a, b, match k { 0 => x + y, 1 => x - y, 2 => x * y, _ => x / y })
}
fn class(neg: bool, zero: bool, sub: bool, inf: bool, nan: bool, quiet: bool) -> u32 {
    let i = if zero { 0 } else if nan { if quiet { 4 } else { 5 } } else if inf { 3 } else if sub { 2 } else { 1 };
    0x800 >> (2 * i + neg as u32)
}

impl S390 {
    pub fn new(feat: S390Feat) -> S390 { S390 { g: [0; 16], v: [0; 32], cc: 0, pc: 0, npc: 0, feat } }
    #[inline]
    fn r(&self, i: u32) -> u64 { self.g[i as usize & 15] }
    #[inline]
    fn w(&mut self, i: u32, v: u64) { self.g[i as usize & 15] = v; }
    #[inline]
    fn w32(&mut self, i: u32, v: u32) { let x = &mut self.g[i as usize & 15]; *x = *x & !0xffff_ffff | v as u64; }
    #[inline]
    fn r32(&self, i: u32) -> u32 { self.g[i as usize & 15] as u32 }
    fn fd(&self, i: u32) -> u64 { (self.v[i as usize] >> 64) as u64 }
    fn wfd(&mut self, i: u32, x: u64) { let v = &mut self.v[i as usize]; *v = *v & u64::MAX as u128 | (x as u128) << 64; }
    fn fs(&self, i: u32) -> u32 { (self.v[i as usize] >> 96) as u32 }
    fn wfs(&mut self, i: u32, x: u32) { let v = &mut self.v[i as usize]; *v = *v << 32 >> 32 | (x as u128) << 96; }
    fn need(&self, l: u8, what: &str) -> R<()> { if self.feat.level >= l { Ok(()) } else { Err(Trap::Illegal(self.pc, format!("{what} on a CPU of architecture level {}", self.feat.level))) } }
    fn taken(&self, mask: u32) -> bool { mask >> (3 - self.cc as u32) & 1 != 0 }
    fn jump(&mut self, off: i64, scale: i64) { self.npc = self.pc.wrapping_add((off * scale) as u64); }

    // 32/64-bit arithmetic with condition codes
    fn add64(&mut self, a: u64, b: u64) -> u64 { let (r, o) = (a as i64).overflowing_add(b as i64); self.cc = ccs(r, o); r as u64 }
    fn sub64(&mut self, a: u64, b: u64) -> u64 { let (r, o) = (a as i64).overflowing_sub(b as i64); self.cc = ccs(r, o); r as u64 }
    fn add32(&mut self, a: u32, b: u32) -> u32 { let (r, o) = (a as i32).overflowing_add(b as i32); self.cc = ccs(r as i64, o); r as u32 }
    fn sub32(&mut self, a: u32, b: u32) -> u32 { let (r, o) = (a as i32).overflowing_sub(b as i32); self.cc = ccs(r as i64, o); r as u32 }
    fn al64(&mut self, a: u64, b: u64, c: u64) -> u64 { let t = a as u128 + b as u128 + c as u128; let r = t as u64; self.cc = (r != 0) as u8 | ((t >> 64) as u8) << 1; r }
    fn sl64(&mut self, a: u64, b: u64, bor: u64) -> u64 { self.al64(a, !b, 1 - bor) }
    fn al32(&mut self, a: u32, b: u32, c: u32) -> u32 { let t = a as u64 + b as u64 + c as u64; let r = t as u32; self.cc = (r != 0) as u8 | ((t >> 32) as u8) << 1; r }
    fn sl32(&mut self, a: u32, b: u32, bor: u32) -> u32 { self.al32(a, !b, 1 - bor) }
    fn lg64(&mut self, v: u64) -> u64 { self.cc = (v != 0) as u8; v }
    fn lg32(&mut self, v: u32) -> u32 { self.cc = (v != 0) as u8; v }
    fn carry(&self) -> u64 { (self.cc >> 1) as u64 }
    fn tmx(&mut self, v: u64, m: u64) {
        let x = v & m;
        self.cc = if x == 0 { 0 } else if x == m { 3 } else if v >> (63 - m.leading_zeros()) & 1 != 0 { 2 } else { 1 };
    }

    /// Parts of a storage operand that are not accessed in one piece.
    fn rd_bytes(&self, m: &mut Mem, a: u64, n: usize) -> R<Vec<u8>> {
        let mut v = vec![];
        let mut p = a;
        let end = a.wrapping_add(n as u64);
        while p < end {
            let e = ((p | 7) + 1).min(end);
            let s = (e - p) as usize;
            let x = m.load(p, s as u32, P)?;
            v.extend_from_slice(&x.to_be_bytes()[16 - s..]);
            p = e;
        }
        Ok(v)
    }
    fn wr_bytes(&self, m: &mut Mem, a: u64, b: &[u8]) -> R<()> {
        let mut p = a;
        let end = a.wrapping_add(b.len() as u64);
        while p < end {
            let e = ((p | 7) + 1).min(end);
            let mut x = 0u128;
            for i in p..e { x = x << 8 | b[(i - a) as usize] as u128; }
            m.store(p, (e - p) as u32, x, false, false)?;
            p = e;
        }
        Ok(())
    }
    fn ld(&self, m: &mut Mem, a: u64, n: u32) -> R<u64> { Ok(m.load(a, n, P)? as u64) }
    fn st(&self, m: &mut Mem, a: u64, n: u32, v: u64) -> R<()> {
        let v = if n < 8 { v & ((1 << (8 * n)) - 1) } else { v };
        m.store(a, n, v as u128, false, false)
    }

    pub fn step(&mut self, m: &mut Mem) -> R<()> {
        let pc = self.pc;
        let Some(b) = m.fetch(pc, 6) else { return Err(Trap::Fault(pc, "jump outside the program")) };
        if pc & 1 != 0 || b.len() < 2 { return Err(Trap::Fault(pc, "jump outside the program")); }
        let mut x = [0u8; 6];
        x[..b.len()].copy_from_slice(b);
        let len = match x[0] >> 6 { 0 => 2, 3 => 6, _ => 4 };
        self.npc = pc + len;
        self.exec(m, &x)?;
        self.pc = self.npc;
        Ok(())
    }
    fn exec(&mut self, m: &mut Mem, x: &[u8; 6]) -> R<()> {
        let op = x[0];
        let (r1, r2) = ((x[1] >> 4) as u32, (x[1] & 15) as u32);
        let unk = |s: &Self| Trap::Unknown(s.pc, format!("{:02x}{:02x}{:02x}{:02x}{:02x}{:02x}", x[0], x[1], x[2], x[3], x[4], x[5]));
        let base = |s: &Self, hi: u8, lo: u8| -> u64 { let b = (hi >> 4) as u32; (if b == 0 { 0 } else { s.r(b) }).wrapping_add(((hi as u64 & 15) << 8) | lo as u64) };
        let bd = base(self, x[2], x[3]);
        let bdx = bd.wrapping_add(if r2 == 0 { 0 } else { self.r(r2) });
        let i16v = i16::from_be_bytes([x[2], x[3]]);
        let u16v = i16v as u16 as u64;
        let i32v = i32::from_be_bytes([x[2], x[3], x[4], x[5]]);
        match op {
            // ------------------------------------------------ RR
            0x07 => {
                if r2 == 0 {
                    match r1 { 15 => m.fence(true, true, true, true)?, 14 if self.feat.level >= 9 => m.fence(true, true, true, true)?, _ => {} }
                } else if self.taken(r1) { self.npc = self.r(r2); }
            }
            0x0d => { let t = self.r(r2); let n = self.npc; self.w(r1, n); if r2 != 0 { self.npc = t; } }
            0x10 => { let a = self.r32(r2) as i32; let v = a.wrapping_abs(); self.cc = if a == i32::MIN { 3 } else if v == 0 { 0 } else { 2 }; self.w32(r1, v as u32); }
            0x11 => { let a = self.r32(r2) as i32; let v = a.wrapping_abs().wrapping_neg(); self.cc = if v == 0 { 0 } else { 1 }; self.w32(r1, v as u32); }
            0x12 => { let a = self.r32(r2); self.cc = ccs(a as i32 as i64, false); self.w32(r1, a); }
            0x13 => { let a = self.r32(r2); let v = self.sub32(0, a); self.w32(r1, v); }
            0x14..=0x17 | 0x19..=0x1b | 0x1e | 0x1f => { let b = self.r32(r2); self.alu32(op & 15, r1, b).ok_or_else(|| unk(self))?; }
            0x18 => { let v = self.r32(r2); self.w32(r1, v); }
            0x28 => { let v = self.fd(r2); self.wfd(r1, v); }
            0x38 => { let v = self.fs(r2); self.wfs(r1, v); }
            // ------------------------------------------------ RX
            0x40 => self.st(m, bdx, 2, self.r(r1))?,
            0x41 => self.w(r1, bdx),
            0x42 => self.st(m, bdx, 1, self.r(r1))?,
            0x43 => { let v = self.ld(m, bdx, 1)?; let o = self.r(r1); self.w(r1, o & !0xff | v); }
            0x44 => { let v = self.r(r1); return self.execute(m, bdx, if r1 == 0 { 0 } else { v as u8 }); }
            0x48 => { let v = self.ld(m, bdx, 2)? as u16 as i16; self.w32(r1, v as i32 as u32); }
            0x49..=0x4b => { let v = self.ld(m, bdx, 2)? as u16 as i16 as i32 as u32; self.alu32(op & 15, r1, v).ok_or_else(|| unk(self))?; }
            0x4c => { let v = self.ld(m, bdx, 2)? as u16 as i16 as i32 as u32; let a = self.r32(r1); self.w32(r1, a.wrapping_mul(v)); }
            0x50 => self.st(m, bdx, 4, self.r(r1))?,
            0x54..=0x57 | 0x59..=0x5b | 0x5e | 0x5f => { let v = self.ld(m, bdx, 4)? as u32; self.alu32(op & 15, r1, v).ok_or_else(|| unk(self))?; }
            0x58 => { let v = self.ld(m, bdx, 4)? as u32; self.w32(r1, v); }
            0x60 => self.st(m, bdx, 8, self.fd(r1))?,
            0x68 => { let v = self.ld(m, bdx, 8)?; self.wfd(r1, v); }
            0x70 => self.st(m, bdx, 4, self.fs(r1) as u64)?,
            0x71 => { let v = self.ld(m, bdx, 4)? as u32; let a = self.r32(r1); self.w32(r1, a.wrapping_mul(v)); }
            0x78 => { let v = self.ld(m, bdx, 4)? as u32; self.wfs(r1, v); }
            // ------------------------------------------------ RS, SI
            0x88 => { let n = bd & 63; let a = self.r32(r1) as u64; self.w32(r1, (if n > 31 { 0 } else { a >> n }) as u32); }
            0x89 => { let n = bd & 63; let a = self.r32(r1); self.w32(r1, if n > 31 { 0 } else { a << n }); }
            0x8a => { let n = (bd & 63).min(31); let v = s32(self.r(r1)) >> n; self.cc = ccs(v as i64, false); self.w32(r1, v as u32); }
            0x90 => { let mut a = bd; let mut i = r1; loop { self.st(m, a, 4, self.r(i))?; if i == r2 { break; } i = (i + 1) & 15; a += 4; } }
            0x98 => { let mut v = vec![]; let mut i = r1; loop { v.push((i, self.ld(m, bd + 4 * v.len() as u64, 4)?)); if i == r2 { break; } i = (i + 1) & 15; } for (i, x) in v { self.w32(i, x as u32); } }
            0x91 => { let v = self.ld(m, bd, 1)?; self.tmx(v, x[1] as u64); if self.cc == 2 { self.cc = 1; } }
            0x92 => self.st(m, bd, 1, x[1] as u64)?,
            0x94 | 0x96 | 0x97 => self.si(m, op, bd, x[1])?,
            0x95 => { let v = self.ld(m, bd, 1)?; self.cc = cmp(v, x[1] as u64); }
            0xba => {
                let (o, n) = (self.r32(r1), self.r32(r2));
                let v = m.rmw(bd, 4, true, true, &mut |c| if c as u32 == o { Some(n as u128) } else { None })? as u32;
                if v == o { self.cc = 0; } else { self.cc = 1; self.w32(r1, v); }
            }
            // ------------------------------------------------ RI
            0xa5 => {
                let k = x[1] & 15;
                let sh = 48 - 16 * (k as u64 & 3);
                let o = self.r(r1);
                let f = 0xffffu64 << sh;
                match k >> 2 {
                    0 => self.w(r1, o & !f | u16v << sh),
                    1 => { let v = (o >> sh & 0xffff) & u16v; self.cc = (v != 0) as u8; self.w(r1, o & !f | v << sh); }
                    2 => { let v = (o >> sh & 0xffff) | u16v; self.cc = (v != 0) as u8; self.w(r1, o & !f | v << sh); }
                    _ => self.w(r1, u16v << sh),
                }
            }
            0xa7 => match x[1] & 15 {
                0 => self.tmx(self.r(r1) >> 16 & 0xffff, u16v),
                1 => self.tmx(self.r(r1) & 0xffff, u16v),
                2 => self.tmx(self.r(r1) >> 48, u16v),
                3 => self.tmx(self.r(r1) >> 32 & 0xffff, u16v),
                4 => if self.taken(r1) { self.jump(i16v as i64, 2); },
                5 => { let n = self.npc; self.w(r1, n); self.jump(i16v as i64, 2); }
                6 => { let v = self.r32(r1).wrapping_sub(1); self.w32(r1, v); if v != 0 { self.jump(i16v as i64, 2); } }
                7 => { let v = self.r(r1).wrapping_sub(1); self.w(r1, v); if v != 0 { self.jump(i16v as i64, 2); } }
                8 => self.w32(r1, i16v as i32 as u32),
                9 => self.w(r1, i16v as i64 as u64),
                10 => { let v = self.add32(self.r32(r1), i16v as i32 as u32); self.w32(r1, v); }
                11 => { let v = self.add64(self.r(r1), i16v as i64 as u64); self.w(r1, v); }
                12 => { let v = self.r32(r1).wrapping_mul(i16v as i32 as u32); self.w32(r1, v); }
                13 => { let v = self.r(r1).wrapping_mul(i16v as i64 as u64); self.w(r1, v); }
                14 => self.cc = cmp(self.r32(r1) as i32, i16v as i32),
                _ => self.cc = cmp(self.r(r1) as i64, i16v as i64),
            },
            0xb2 => {
                let (a, b) = ((x[3] >> 4) as u32, (x[3] & 15) as u32);
                match x[1] {
                    0x22 => { let o = self.r(a); self.w(a, o & !0xff00_0000 | (self.cc as u64) << 28); }
                    0x52 => { let v = self.r32(a).wrapping_mul(self.r32(b)); self.w32(a, v); }
                    _ => return Err(unk(self)),
                }
            }
            0xb3 => self.fp_rr(x)?,
            0xb9 => self.rre(x)?,
            // ------------------------------------------------ RIL
            0xc0 => {
                let u = i32v as u32;
                match x[1] & 15 {
                    0 => self.w(r1, self.pc.wrapping_add((i32v as i64 * 2) as u64)),
                    1 => self.w(r1, i32v as i64 as u64),
                    4 => if self.taken(r1) { self.jump(i32v as i64, 2); },
                    5 => { let n = self.npc; self.w(r1, n); self.jump(i32v as i64, 2); }
                    k @ (6 | 8 | 10 | 12) => {
                        let o = self.r(r1);
                        let h = (o >> 32) as u32;
                        let v = match k { 6 => self.lg32(h ^ u), 8 => u, 10 => self.lg32(h & u), _ => self.lg32(h | u) };
                        self.w(r1, o & 0xffff_ffff | (v as u64) << 32);
                    }
                    k @ (7 | 9 | 11 | 13) => {
                        let h = self.r32(r1);
                        let v = match k { 7 => self.lg32(h ^ u), 9 => u, 11 => self.lg32(h & u), _ => self.lg32(h | u) };
                        self.w32(r1, v);
                    }
                    14 => self.w(r1, (u as u64) << 32),
                    15 => self.w(r1, u as u64),
                    _ => return Err(unk(self)),
                }
            }
            0xc2 => {
                let u = i32v as u32;
                let (a, b) = (self.r(r1), self.r32(r1));
                match x[1] & 15 {
                    0 => self.w(r1, a.wrapping_mul(i32v as i64 as u64)),
                    1 => self.w32(r1, b.wrapping_mul(u)),
                    4 => { let v = self.sl64(a, u as u64, 0); self.w(r1, v); }
                    5 => { let v = self.sl32(b, u, 0); self.w32(r1, v); }
                    8 => { let v = self.add64(a, i32v as i64 as u64); self.w(r1, v); }
                    9 => { let v = self.add32(b, u); self.w32(r1, v); }
                    10 => { let v = self.al64(a, u as u64, 0); self.w(r1, v); }
                    11 => { let v = self.al32(b, u, 0); self.w32(r1, v); }
                    12 => self.cc = cmp(a as i64, i32v as i64),
                    13 => self.cc = cmp(b as i32, i32v),
                    14 => self.cc = cmp(a, u as u64),
                    15 => self.cc = cmp(b, u),
                    _ => return Err(unk(self)),
                }
            }
            0xc4 => {
                let a = self.pc.wrapping_add((i32v as i64 * 2) as u64);
                match x[1] & 15 {
                    2 => { let v = self.ld(m, a, 2)?; self.w32(r1, v as u32); }
                    4 => { let v = self.ld(m, a, 2)?; self.w(r1, v as u16 as i16 as i64 as u64); }
                    5 => { let v = self.ld(m, a, 2)?; self.w32(r1, v as u16 as i16 as i32 as u32); }
                    6 => { let v = self.ld(m, a, 2)?; self.w(r1, v); }
                    7 => self.st(m, a, 2, self.r(r1))?,
                    8 => { let v = self.ld(m, a, 8)?; self.w(r1, v); }
                    11 => self.st(m, a, 8, self.r(r1))?,
                    12 => { let v = self.ld(m, a, 4)?; self.w(r1, s32(v) as i64 as u64); }
                    13 => { let v = self.ld(m, a, 4)?; self.w32(r1, v as u32); }
                    14 => { let v = self.ld(m, a, 4)?; self.w(r1, v); }
                    15 => self.st(m, a, 4, self.r(r1))?,
                    _ => return Err(unk(self)),
                }
            }
            0xc6 => {
                let a = self.pc.wrapping_add((i32v as i64 * 2) as u64);
                match x[1] & 15 {
                    0 => { let v = self.r(r1); return self.execute(m, a, if r1 == 0 { 0 } else { v as u8 }); }
                    2 => {}
                    8 => { let v = self.ld(m, a, 8)?; self.cc = cmp(self.r(r1) as i64, v as i64); }
                    10 => { let v = self.ld(m, a, 8)?; self.cc = cmp(self.r(r1), v); }
                    13 => { let v = self.ld(m, a, 4)?; self.cc = cmp(self.r32(r1) as i32, v as i32); }
                    14 => { let v = self.ld(m, a, 4)?; self.cc = cmp(self.r(r1), v); }
                    15 => { let v = self.ld(m, a, 4)?; self.cc = cmp(self.r32(r1), v as u32); }
                    _ => return Err(unk(self)),
                }
            }
            // ------------------------------------------------ SS
            0xd2 | 0xd4..=0xd7 => {
                let n = x[1] as usize + 1;
                let (d, s) = (bd, base(self, x[4], x[5]));
                let sb = self.rd_bytes(m, s, n)?;
                if op == 0xd2 {
                    let mut o = vec![0u8; n];
                    for i in 0..n {
                        let a = s.wrapping_add(i as u64);
                        o[i] = if a >= d && a < d + i as u64 { o[(a - d) as usize] } else { sb[i] };
                    }
                    self.wr_bytes(m, d, &o)?;
                } else if op == 0xd5 {
                    let db = self.rd_bytes(m, d, n)?;
                    self.cc = cmp(&db, &sb);
                } else {
                    if d != s && s < d + n as u64 && d < s + n as u64 { return Err(unk(self)); }
                    let db = if d == s { sb.clone() } else { self.rd_bytes(m, d, n)? };
                    let o: Vec<u8> = db.iter().zip(&sb).map(|(a, b)| match op { 0xd4 => a & b, 0xd6 => a | b, _ => a ^ b }).collect();
                    self.wr_bytes(m, d, &o)?;
                    self.cc = o.iter().any(|v| *v != 0) as u8;
                }
            }
            0xe3 => self.rxy(m, x)?,
            0xe5 => {
                let i = i16::from_be_bytes([x[4], x[5]]);
                match x[1] {
                    0x44 => self.st(m, bd, 2, i as u64)?,
                    0x48 => self.st(m, bd, 8, i as i64 as u64)?,
                    0x4c => self.st(m, bd, 4, i as i32 as u32 as u64)?,
                    0x54 => { let v = self.ld(m, bd, 2)?; self.cc = cmp(v as u16 as i16, i); }
                    0x55 => { let v = self.ld(m, bd, 2)?; self.cc = cmp(v as u16, i as u16); }
                    0x58 => { let v = self.ld(m, bd, 8)?; self.cc = cmp(v as i64, i as i64); }
                    0x59 => { let v = self.ld(m, bd, 8)?; self.cc = cmp(v, i as u16 as u64); }
                    0x5c => { let v = self.ld(m, bd, 4)?; self.cc = cmp(v as u32 as i32, i as i32); }
                    0x5d => { let v = self.ld(m, bd, 4)?; self.cc = cmp(v as u32, i as u16 as u32); }
                    _ => return Err(unk(self)),
                }
            }
            0xe7 => self.vec(m, x, bdx)?,
            0xeb => self.rsy(m, x)?,
            0xec => self.rie(x)?,
            0xed => self.rxe(m, x, bdx)?,
            _ => return Err(unk(self)),
        }
        Ok(())
    }
    fn execute(&mut self, m: &mut Mem, a: u64, or: u8) -> R<()> {
        let Some(b) = m.fetch(a, 6) else { return Err(Trap::Fault(a, "execute target outside the program")) };
        let mut x = [0u8; 6];
        x[..b.len()].copy_from_slice(b);
        x[1] |= or;
        self.exec(m, &x)
    }
    /// Two-operand 32-bit operations; the low digit is the same in the register and storage forms.
    fn alu32(&mut self, k: u8, r1: u32, b: u32) -> Option<()> {
        let a = self.r32(r1);
        let v = match k {
            4 => self.lg32(a & b),
            5 => { self.cc = cmp(a, b); return Some(()); }
            6 => self.lg32(a | b),
            7 => self.lg32(a ^ b),
            9 => { self.cc = cmp(a as i32, b as i32); return Some(()); }
            10 => self.add32(a, b),
            11 => self.sub32(a, b),
            14 => self.al32(a, b, 0),
            15 => self.sl32(a, b, 0),
            _ => return None,
        };
        self.w32(r1, v);
        Some(())
    }
    /// and / or / exclusive or of a byte in storage
    fn si(&mut self, m: &mut Mem, op: u8, a: u64, i: u8) -> R<()> {
        let v = self.ld(m, a, 1)? as u8;
        let n = match op { 0x94 => v & i, 0x96 => v | i, _ => v ^ i };
        self.st(m, a, 1, n as u64)?;
        self.cc = (n != 0) as u8;
        Ok(())
    }
    fn rre(&mut self, x: &[u8; 6]) -> R<()> {
        let (r3, m4, r1, r2) = ((x[2] >> 4) as u32, (x[2] & 15) as u32, (x[3] >> 4) as u32, (x[3] & 15) as u32);
        let (a, b, c) = (self.r(r1), self.r(r2), self.r(r3));
        let (a4, b4, c4) = (a as u32, b as u32, c as u32);
        let bs = b4 as i32 as i64 as u64;
        match x[1] {
            0x00 => { let s = b as i64; self.cc = if s == i64::MIN { 3 } else if s == 0 { 0 } else { 2 }; self.w(r1, s.wrapping_abs() as u64); }
            0x01 => { let s = (b as i64).wrapping_abs().wrapping_neg(); self.cc = (s != 0) as u8; self.w(r1, s as u64); }
            0x02 => { self.cc = ccs(b as i64, false); self.w(r1, b); }
            0x03 => { let v = self.sub64(0, b); self.w(r1, v); }
            0x04 => self.w(r1, b),
            0x06 => self.w(r1, b as u8 as i8 as i64 as u64),
            0x07 => self.w(r1, b as u16 as i16 as i64 as u64),
            0x08 => { let v = self.add64(a, b); self.w(r1, v); }
            0x09 => { let v = self.sub64(a, b); self.w(r1, v); }
            0x0a => { let v = self.al64(a, b, 0); self.w(r1, v); }
            0x0b => { let v = self.sl64(a, b, 0); self.w(r1, v); }
            0x0c => self.w(r1, a.wrapping_mul(b)),
            0x0d | 0x1d => { // dsgr, dsgfr
                let (n, d) = (self.r(r1 | 1) as i64, if x[1] == 0x0d { b } else { bs } as i64);
                if d == 0 || n == i64::MIN && d == -1 { return Err(Trap::Fault(self.pc, "fixed-point divide exception")); }
                self.w(r1, (n % d) as u64);
                self.w(r1 | 1, (n / d) as u64);
            }
            0x0f => self.w(r1, b.swap_bytes()),
            0x12 => { self.cc = ccs(bs as i64, false); self.w(r1, bs); }
            0x13 => { let v = self.sub64(0, bs); self.w(r1, v); }
            0x14 => self.w(r1, bs),
            0x16 => self.w(r1, b4 as u64),
            0x17 => self.w(r1, b & 0x7fff_ffff),
            0x18 => { let v = self.add64(a, bs); self.w(r1, v); }
            0x19 => { let v = self.sub64(a, bs); self.w(r1, v); }
            0x1a => { let v = self.al64(a, b4 as u64, 0); self.w(r1, v); }
            0x1b => { let v = self.sl64(a, b4 as u64, 0); self.w(r1, v); }
            0x1c => self.w(r1, a.wrapping_mul(bs)),
            0x1f => self.w32(r1, b4.swap_bytes()),
            0x20 => self.cc = cmp(a as i64, b as i64),
            0x21 => self.cc = cmp(a, b),
            0x26 => self.w32(r1, b as u8 as i8 as i32 as u32),
            0x27 => self.w32(r1, b as u16 as i16 as i32 as u32),
            0x30 => self.cc = cmp(a as i64, bs as i64),
            0x31 => self.cc = cmp(a, b4 as u64),
            k @ (0x64..=0x67 | 0xe4..=0xe7) => {
                self.need(if k < 0x80 || k == 0xe5 { 13 } else { 9 }, "a three-operand logical instruction")?;
                let v = match k { 0x64 => !(b & c), 0x65 => b | !c, 0x66 => !(b | c), 0x67 => !(b ^ c), 0xe4 => b & c, 0xe5 => b & !c, 0xe6 => b | c, _ => b ^ c };
                let v = self.lg64(v);
                self.w(r1, v);
            }
            k @ (0x74..=0x77 | 0xf4..=0xf7) => {
                self.need(if k < 0x80 || k == 0xf5 { 13 } else { 9 }, "a three-operand logical instruction")?;
                let v = match k { 0x74 => !(b4 & c4), 0x75 => b4 | !c4, 0x76 => !(b4 | c4), 0x77 => !(b4 ^ c4), 0xf4 => b4 & c4, 0xf5 => b4 & !c4, 0xf6 => b4 | c4, _ => b4 ^ c4 };
                let v = self.lg32(v);
                self.w32(r1, v);
            }
            k @ (0xe8..=0xeb) => {
                self.need(9, "a three-operand instruction")?;
                let v = match k { 0xe8 => self.add64(b, c), 0xe9 => self.sub64(b, c), 0xea => self.al64(b, c, 0), _ => self.sl64(b, c, 0) };
                self.w(r1, v);
            }
            k @ (0xf8..=0xfb) => {
                self.need(9, "a three-operand instruction")?;
                let v = match k { 0xf8 => self.add32(b4, c4), 0xf9 => self.sub32(b4, c4), 0xfa => self.al32(b4, c4, 0), _ => self.sl32(b4, c4, 0) };
                self.w32(r1, v);
            }
            0x80 => { let v = self.lg64(a & b); self.w(r1, v); }
            0x81 => { let v = self.lg64(a | b); self.w(r1, v); }
            0x82 => { let v = self.lg64(a ^ b); self.w(r1, v); }
            0x83 => { let z = b.leading_zeros(); self.cc = if b == 0 { 0 } else { 2 }; self.w(r1, z as u64); self.w(r1 | 1, if b == 0 { 0 } else { b & !(1 << (63 - z)) }); }
            0x84 => self.w(r1, b as u8 as u64),
            0x85 => self.w(r1, b as u16 as u64),
            0x86 => { let p = self.r(r1 | 1) as u128 * b as u128; self.w(r1, (p >> 64) as u64); self.w(r1 | 1, p as u64); }
            0x87 => self.dlg(r1, b)?,
            0x88 => { let c = self.carry(); let v = self.al64(a, b, c); self.w(r1, v); }
            0x89 => { let c = 1 - self.carry(); let v = self.sl64(a, b, c); self.w(r1, v); }
            0x94 => self.w32(r1, b as u8 as u32),
            0x95 => self.w32(r1, b as u16 as u32),
            0x96 => { let p = self.r32(r1 | 1) as u64 * b4 as u64; self.w32(r1, (p >> 32) as u32); self.w32(r1 | 1, p as u32); }
            0x97 => self.dl(r1, b4)?,
            0x98 => { let c = self.carry() as u32; let v = self.al32(a4, b4, c); self.w32(r1, v); }
            0x99 => { let c = 1 - self.carry() as u32; let v = self.sl32(a4, b4, c); self.w32(r1, v); }
            k @ (0xed | 0xfd) => { // msgrkc, msrkc
                self.need(12, "multiply with three operands")?;
                let (p, lo) = if k == 0xed { (b as i64 as i128 * c as i64 as i128, 64) } else { (b4 as i32 as i128 * c4 as i32 as i128, 32) };
                let over = if lo == 64 { p != p as i64 as i128 } else { p != p as i32 as i128 };
                if lo == 64 { self.w(r1, p as u64) } else { self.w32(r1, p as u32) }
                self.cc = if over { 3 } else if p == 0 { 0 } else if p < 0 { 1 } else { 2 };
            }
            0xe0 => { self.need(12, "locfhr")?; if self.taken(r3) { self.w(r1, a & 0xffff_ffff | b >> 32 << 32); } }
            0xe2 => { self.need(9, "locgr")?; if self.taken(r3) { self.w(r1, b); } }
            0xf2 => { self.need(9, "locr")?; if self.taken(r3) { self.w32(r1, b4); } }
            0xe3 => { self.need(13, "selgr")?; let t = self.taken(m4); self.w(r1, if t { b } else { c }); }
            0xf0 => { self.need(13, "selr")?; let t = self.taken(m4); self.w32(r1, if t { b4 } else { c4 }); }
            0xe1 => { self.need(13, "popcnt")?; if r3 & 8 == 0 { return Err(Trap::Unknown(self.pc, "popcnt of bytes".into())); } let v = b.count_ones() as u64; self.cc = (v != 0) as u8; self.w(r1, v); }
            _ => return Err(Trap::Unknown(self.pc, format!("{:02x}{:02x}{:02x}{:02x}", x[0], x[1], x[2], x[3]))),
        }
        Ok(())
    }
    fn dlg(&mut self, r1: u32, d: u64) -> R<()> {
        let n = (self.r(r1) as u128) << 64 | self.r(r1 | 1) as u128;
        if d == 0 || n / d as u128 > u64::MAX as u128 { return Err(Trap::Fault(self.pc, "fixed-point divide exception")); }
        self.w(r1, (n % d as u128) as u64);
        self.w(r1 | 1, (n / d as u128) as u64);
        Ok(())
    }
    fn dl(&mut self, r1: u32, d: u32) -> R<()> {
        let n = (self.r32(r1) as u64) << 32 | self.r32(r1 | 1) as u64;
        if d == 0 || n / d as u64 > u32::MAX as u64 { return Err(Trap::Fault(self.pc, "fixed-point divide exception")); }
        self.w32(r1, (n % d as u64) as u32);
        self.w32(r1 | 1, (n / d as u64) as u32);
        Ok(())
    }
    fn d20(&self, x: &[u8; 6]) -> u64 {
        let b = (x[2] >> 4) as u32;
        let d = (((x[4] as i8 as i64) << 12) | (x[2] as i64 & 15) << 8 | x[3] as i64) as u64;
        (if b == 0 { 0 } else { self.r(b) }).wrapping_add(d)
    }
    fn rxy(&mut self, m: &mut Mem, x: &[u8; 6]) -> R<()> {
        let (r1, x2) = ((x[1] >> 4) as u32, (x[1] & 15) as u32);
        let ea = self.d20(x).wrapping_add(if x2 == 0 { 0 } else { self.r(x2) });
        let (a, a4) = (self.r(r1), self.r32(r1));
        match x[5] {
            0x02 => { let v = self.ld(m, ea, 8)?; self.cc = ccs(v as i64, false); self.w(r1, v); }
            0x04 => { let v = self.ld(m, ea, 8)?; self.w(r1, v); }
            0x08 => { let v = self.ld(m, ea, 8)?; let v = self.add64(a, v); self.w(r1, v); }
            0x09 => { let v = self.ld(m, ea, 8)?; let v = self.sub64(a, v); self.w(r1, v); }
            0x0a => { let v = self.ld(m, ea, 8)?; let v = self.al64(a, v, 0); self.w(r1, v); }
            0x0b => { let v = self.ld(m, ea, 8)?; let v = self.sl64(a, v, 0); self.w(r1, v); }
            0x0c => { let v = self.ld(m, ea, 8)?; self.w(r1, a.wrapping_mul(v)); }
            0x0f => { let v = self.ld(m, ea, 8)?; self.w(r1, v.swap_bytes()); }
            0x12 => { let v = self.ld(m, ea, 4)? as u32; self.cc = ccs(v as i32 as i64, false); self.w32(r1, v); }
            0x14 => { let v = self.ld(m, ea, 4)?; self.w(r1, s32(v) as i64 as u64); }
            0x15 => { let v = self.ld(m, ea, 2)?; self.w(r1, v as u16 as i16 as i64 as u64); }
            0x16 => { let v = self.ld(m, ea, 4)?; self.w(r1, v); }
            0x17 => { let v = self.ld(m, ea, 4)?; self.w(r1, v & 0x7fff_ffff); }
            k @ (0x18 | 0x19 | 0x1c | 0x30) => {
                let v = s32(self.ld(m, ea, 4)?) as i64 as u64;
                match k { 0x18 => { let v = self.add64(a, v); self.w(r1, v) } 0x19 => { let v = self.sub64(a, v); self.w(r1, v) } 0x1c => self.w(r1, a.wrapping_mul(v)), _ => self.cc = cmp(a as i64, v as i64) }
            }
            k @ (0x1a | 0x1b | 0x31) => {
                let v = self.ld(m, ea, 4)?;
                match k { 0x1a => { let v = self.al64(a, v, 0); self.w(r1, v) } 0x1b => { let v = self.sl64(a, v, 0); self.w(r1, v) } _ => self.cc = cmp(a, v) }
            }
            0x1e => { let v = self.ld(m, ea, 4)? as u32; self.w32(r1, v.swap_bytes()); }
            0x1f => { let v = self.ld(m, ea, 2)? as u16; self.w(r1, a & !0xffff | v.swap_bytes() as u64); }
            0x20 => { let v = self.ld(m, ea, 8)?; self.cc = cmp(a as i64, v as i64); }
            0x21 => { let v = self.ld(m, ea, 8)?; self.cc = cmp(a, v); }
            0x24 => self.st(m, ea, 8, a)?,
            0x2f => self.st(m, ea, 8, a.swap_bytes())?,
            0x32 => { let v = s32(self.ld(m, ea, 4)?) as i64; self.cc = ccs(v, false); self.w(r1, v as u64); }
            0x34 => { let v = self.ld(m, ea, 2)?; self.cc = cmp(a as i64, v as u16 as i16 as i64); }
            0x36 => {}
            k @ (0x38 | 0x39 | 0x3c) => {
                self.need(12, "a halfword arithmetic instruction")?;
                let v = self.ld(m, ea, 2)? as u16 as i16 as i64 as u64;
                match k { 0x38 => { let v = self.add64(a, v); self.w(r1, v) } 0x39 => { let v = self.sub64(a, v); self.w(r1, v) } _ => self.w(r1, a.wrapping_mul(v)) }
            }
            0x3e => self.st(m, ea, 4, a4.swap_bytes() as u64)?,
            0x3f => self.st(m, ea, 2, (a as u16).swap_bytes() as u64)?,
            0x47 => { self.need(12, "bi")?; let v = self.ld(m, ea, 8)?; if self.taken(r1) { self.npc = v; } }
            0x50 => self.st(m, ea, 4, a)?,
            0x51 => { let v = self.ld(m, ea, 4)? as u32; self.w32(r1, a4.wrapping_mul(v)); }
            k @ (0x54..=0x57 | 0x59..=0x5b | 0x5e | 0x5f) => { let v = self.ld(m, ea, 4)? as u32; self.alu32(k & 15, r1, v).ok_or(Trap::Unknown(self.pc, "rxy".into()))?; }
            0x58 => { let v = self.ld(m, ea, 4)?; self.w32(r1, v as u32); }
            0x70 => self.st(m, ea, 2, a)?,
            0x71 => self.w(r1, ea),
            0x72 => self.st(m, ea, 1, a)?,
            0x73 => { let v = self.ld(m, ea, 1)?; self.w(r1, a & !0xff | v); }
            0x76 => { let v = self.ld(m, ea, 1)?; self.w32(r1, v as u8 as i8 as i32 as u32); }
            0x77 => { let v = self.ld(m, ea, 1)?; self.w(r1, v as u8 as i8 as i64 as u64); }
            0x78 => { let v = self.ld(m, ea, 2)?; self.w32(r1, v as u16 as i16 as i32 as u32); }
            k @ (0x79..=0x7b) => { let v = self.ld(m, ea, 2)? as u16 as i16 as i32 as u32; self.alu32(k & 15, r1, v).ok_or(Trap::Unknown(self.pc, "rxy".into()))?; }
            0x7c => { let v = self.ld(m, ea, 2)? as u16 as i16 as i32 as u32; self.w32(r1, a4.wrapping_mul(v)); }
            0x80 => { let v = self.ld(m, ea, 8)?; let v = self.lg64(a & v); self.w(r1, v); }
            0x81 => { let v = self.ld(m, ea, 8)?; let v = self.lg64(a | v); self.w(r1, v); }
            0x82 => { let v = self.ld(m, ea, 8)?; let v = self.lg64(a ^ v); self.w(r1, v); }
            0x86 => { let v = self.ld(m, ea, 8)?; let p = self.r(r1 | 1) as u128 * v as u128; self.w(r1, (p >> 64) as u64); self.w(r1 | 1, p as u64); }
            0x87 => { let v = self.ld(m, ea, 8)?; self.dlg(r1, v)?; }
            0x0d | 0x1d => { // dsg, dsgf
                let d = if x[5] == 0x0d { self.ld(m, ea, 8)? as i64 } else { self.ld(m, ea, 4)? as u32 as i32 as i64 };
                let n = self.r(r1 | 1) as i64;
                if d == 0 || n == i64::MIN && d == -1 { return Err(Trap::Fault(self.pc, "fixed-point divide exception")); }
                self.w(r1, (n % d) as u64);
                self.w(r1 | 1, (n / d) as u64);
            }
            0x88 => { let v = self.ld(m, ea, 8)?; let c = self.carry(); let v = self.al64(a, v, c); self.w(r1, v); }
            0x89 => { let v = self.ld(m, ea, 8)?; let c = 1 - self.carry(); let v = self.sl64(a, v, c); self.w(r1, v); }
            k @ (0x8e | 0x8f) => {
                if r1 & 1 != 0 || ea & 15 != 0 { return Err(Trap::Fault(ea, "specification exception (quadword access)")); }
                if k == 0x8f { let v = m.load(ea, 16, P)?; self.w(r1, (v >> 64) as u64); self.w(r1 + 1, v as u64); }
                else { m.store(ea, 16, (a as u128) << 64 | self.r(r1 + 1) as u128, false, false)?; }
            }
            0x90 => { let v = self.ld(m, ea, 1)?; self.w(r1, v); }
            0x91 => { let v = self.ld(m, ea, 2)?; self.w(r1, v); }
            0x94 => { let v = self.ld(m, ea, 1)?; self.w32(r1, v as u32); }
            0x95 => { let v = self.ld(m, ea, 2)?; self.w32(r1, v as u32); }
            0x96 => { let v = self.ld(m, ea, 4)?; let p = self.r32(r1 | 1) as u64 * v; self.w32(r1, (p >> 32) as u32); self.w32(r1 | 1, p as u32); }
            0x97 => { let v = self.ld(m, ea, 4)?; self.dl(r1, v as u32)?; }
            0x98 => { let v = self.ld(m, ea, 4)? as u32; let c = self.carry() as u32; let v = self.al32(a4, v, c); self.w32(r1, v); }
            0x99 => { let v = self.ld(m, ea, 4)? as u32; let c = 1 - self.carry() as u32; let v = self.sl32(a4, v, c); self.w32(r1, v); }
            // the high words of the registers
            k @ (0xc0 | 0xc2 | 0xc4 | 0xc6 | 0xca | 0xcd | 0xcf) => {
                self.need(9, "a high-word instruction")?;
                let v = self.ld(m, ea, match k { 0xc0 | 0xc2 => 1, 0xc4 | 0xc6 => 2, _ => 4 })?;
                let h = (a >> 32) as u32;
                let v = match k { 0xc0 => v as u8 as i8 as i32 as u32, 0xc4 => v as u16 as i16 as i32 as u32, _ => v as u32 };
                match k { 0xcd => self.cc = cmp(h as i32, v as i32), 0xcf => self.cc = cmp(h, v), _ => self.w(r1, a & 0xffff_ffff | (v as u64) << 32) }
            }
            k @ (0xc3 | 0xc7 | 0xcb) => { self.need(9, "a high-word instruction")?; self.st(m, ea, match k { 0xc3 => 1, 0xc7 => 2, _ => 4 }, a >> 32)?; }
            _ => return Err(Trap::Unknown(self.pc, format!("e3..{:02x}", x[5]))),
        }
        Ok(())
    }
    fn rsy(&mut self, m: &mut Mem, x: &[u8; 6]) -> R<()> {
        let (r1, r3) = ((x[1] >> 4) as u32, (x[1] & 15) as u32);
        let ea = self.d20(x);
        let n = ea as u32 & 63;
        let (a, c) = (self.r(r1), self.r(r3));
        let c4 = c as u32;
        match x[5] {
            k @ (0x04 | 0x96) => {
                let s = if k == 4 { 8 } else { 4 };
                let mut v = vec![];
                let mut i = r1;
                loop { let y = self.ld(m, ea + s as u64 * v.len() as u64, s)?; v.push((i, y)); if i == r3 { break; } i = (i + 1) & 15; }
                for (i, y) in v { if k == 4 { self.w(i, y); } else { let o = self.r(i); self.w(i, o & 0xffff_ffff | y << 32); } }
            }
            k @ (0x24 | 0x26) => {
                let s = if k == 0x24 { 8 } else { 4 };
                let (mut p, mut i) = (ea, r1);
                loop { let v = self.r(i); self.st(m, p, s, if k == 0x24 { v } else { v >> 32 })?; if i == r3 { break; } i = (i + 1) & 15; p += s as u64; }
            }
            0x0a => { let v = c as i64 >> n; self.cc = ccs(v, false); self.w(r1, v as u64); }
            0x0c => self.w(r1, c >> n),
            0x0d => self.w(r1, c << n),
            0x1c => self.w(r1, c.rotate_left(n)),
            0x1d => self.w32(r1, c4.rotate_left(n & 31)),
            0xdc => { self.need(9, "srak")?; let v = c4 as i32 >> n.min(31); self.cc = ccs(v as i64, false); self.w32(r1, v as u32); }
            0xde => { self.need(9, "srlk")?; self.w32(r1, if n > 31 { 0 } else { c4 >> n }); }
            0xdf => { self.need(9, "sllk")?; self.w32(r1, if n > 31 { 0 } else { c4 << n }); }
            k @ (0x14 | 0x30) => {
                let s = if k == 0x30 { 8 } else { 4 };
                let mk = if s == 8 { u64::MAX } else { 0xffff_ffff };
                let (o, w) = (a & mk, c & mk);
                let v = m.rmw(ea, s, true, true, &mut |c| if c as u64 == o { Some(w as u128) } else { None })? as u64;
                if v == o { self.cc = 0; } else { self.cc = 1; if s == 8 { self.w(r1, v) } else { self.w32(r1, v as u32) } }
            }
            0x3e => {
                if (r1 | r3) & 1 != 0 { return Err(Trap::Fault(ea, "specification exception (register pair)")); }
                let o = (a as u128) << 64 | self.r(r1 + 1) as u128;
                let w = (c as u128) << 64 | self.r(r3 + 1) as u128;
                let v = m.rmw(ea, 16, true, true, &mut |c| if c == o { Some(w) } else { None })?;
                if v == o { self.cc = 0; } else { self.cc = 1; self.w(r1, (v >> 64) as u64); self.w(r1 + 1, v as u64); }
            }
            0x51 => { let v = self.ld(m, ea, 1)?; self.tmx(v, x[1] as u64); if self.cc == 2 { self.cc = 1; } }
            0x52 => self.st(m, ea, 1, x[1] as u64)?,
            0x54 => self.si(m, 0x94, ea, x[1])?,
            0x56 => self.si(m, 0x96, ea, x[1])?,
            0x57 => self.si(m, 0x97, ea, x[1])?,
            0x55 => { let v = self.ld(m, ea, 1)?; self.cc = cmp(v, x[1] as u64); }
            // add immediate to storage: not interlocked on old machines, and nothing relies on it
            k @ (0x6a | 0x6e) => { let v = self.ld(m, ea, 4)? as u32; let i = x[1] as i8 as i32 as u32; let v = if k == 0x6a { self.add32(v, i) } else { self.al32(v, i, 0) }; self.st(m, ea, 4, v as u64)?; }
            k @ (0x7a | 0x7e) => { let v = self.ld(m, ea, 8)?; let i = x[1] as i8 as i64 as u64; let cc = self.cc; let v = if k == 0x7a { self.add64(v, i) } else { self.al64(v, i, 0) }; let n = std::mem::replace(&mut self.cc, cc); self.st(m, ea, 8, v)?; self.cc = n; }
            // interlocked-access facility 1
            k @ (0xe4 | 0xe6 | 0xe7 | 0xe8 | 0xea | 0xf4 | 0xf6 | 0xf7 | 0xf8 | 0xfa) => {
                self.need(9, "an interlocked-access instruction")?;
                let s = if k < 0xf0 { 8 } else { 4 };
                let mk = if s == 8 { u64::MAX } else { 0xffff_ffff };
                let f = |o: u64| (match k & 15 { 4 => o & c, 6 => o | c, 7 => o ^ c, _ => o.wrapping_add(c) }) & mk;
                let v = m.rmw(ea, s, true, true, &mut |o| Some(f(o as u64) as u128))? as u64;
                match k {
                    0xe8 => { self.add64(v, c); }
                    0xea => { self.al64(v, c, 0); }
                    0xf8 => { self.add32(v as u32, c4); }
                    0xfa => { self.al32(v as u32, c4, 0); }
                    _ => self.cc = (f(v) != 0) as u8,
                }
                if s == 8 { self.w(r1, v) } else { self.w32(r1, v as u32) }
            }
            0xe2 => { self.need(9, "locg")?; if self.taken(r3) { let v = self.ld(m, ea, 8)?; self.w(r1, v); } }
            0xf2 => { self.need(9, "loc")?; if self.taken(r3) { let v = self.ld(m, ea, 4)?; self.w32(r1, v as u32); } }
            0xe3 => { self.need(9, "stocg")?; if self.taken(r3) { self.st(m, ea, 8, a)?; } }
            0xf3 => { self.need(9, "stoc")?; if self.taken(r3) { self.st(m, ea, 4, a)?; } }
            _ => return Err(Trap::Unknown(self.pc, format!("eb..{:02x}", x[5]))),
        }
        Ok(())
    }
    fn rie(&mut self, x: &[u8; 6]) -> R<()> {
        let (r1, r2) = ((x[1] >> 4) as u32, (x[1] & 15) as u32);
        let (a, b) = (self.r(r1), self.r(r2));
        let (a4, b4) = (a as u32, b as u32);
        let i4 = i16::from_be_bytes([x[2], x[3]]) as i64;
        let i8v = x[4] as i8;
        let hit = |c: u8, m: u32| m >> (3 - c as u32) & 1 != 0;
        let m3 = (x[4] >> 4) as u32;
        let bd = { let b = (x[2] >> 4) as u32; (if b == 0 { 0 } else { self.r(b) }).wrapping_add((x[2] as u64 & 15) << 8 | x[3] as u64) };
        match x[5] {
            0x64 => if hit(cmp(a as i64, b as i64), m3) { self.jump(i4, 2) },
            0x65 => if hit(cmp(a, b), m3) { self.jump(i4, 2) },
            0x76 => if hit(cmp(a4 as i32, b4 as i32), m3) { self.jump(i4, 2) },
            0x77 => if hit(cmp(a4, b4), m3) { self.jump(i4, 2) },
            0x7c => if hit(cmp(a as i64, i8v as i64), r2) { self.jump(i4, 2) },
            0x7d => if hit(cmp(a, x[4] as u64), r2) { self.jump(i4, 2) },
            0x7e => if hit(cmp(a4 as i32, i8v as i32), r2) { self.jump(i4, 2) },
            0x7f => if hit(cmp(a4, x[4] as u32), r2) { self.jump(i4, 2) },
            0xe4 => if hit(cmp(a as i64, b as i64), m3) { self.npc = bd },
            0xe5 => if hit(cmp(a, b), m3) { self.npc = bd },
            0xf6 => if hit(cmp(a4 as i32, b4 as i32), m3) { self.npc = bd },
            0xf7 => if hit(cmp(a4, b4), m3) { self.npc = bd },
            0xfc => if hit(cmp(a as i64, i8v as i64), r2) { self.npc = bd },
            0xfd => if hit(cmp(a, x[4] as u64), r2) { self.npc = bd },
            0xfe => if hit(cmp(a4 as i32, i8v as i32), r2) { self.npc = bd },
            0xff => if hit(cmp(a4, x[4] as u32), r2) { self.npc = bd },
            0x42 => { self.need(11, "lochi")?; if self.taken(r2) { self.w32(r1, i4 as u32); } }
            0x46 => { self.need(11, "locghi")?; if self.taken(r2) { self.w(r1, i4 as u64); } }
            0x4e => { self.need(11, "lochhi")?; if self.taken(r2) { self.w(r1, a & 0xffff_ffff | (i4 as u32 as u64) << 32); } }
            0xd8 => { self.need(9, "ahik")?; let v = self.add32(b4, i4 as u32); self.w32(r1, v); }
            0xd9 => { self.need(9, "aghik")?; let v = self.add64(b, i4 as u64); self.w(r1, v); }
            0xda => { self.need(9, "alhsik")?; let v = self.al32(b4, i4 as u32, 0); self.w32(r1, v); }
            0xdb => { self.need(9, "alghsik")?; let v = self.al64(b, i4 as u64, 0); self.w(r1, v); }
            k @ (0x54..=0x57 | 0x59) => {
                let (i3, i4, i5) = (x[2], x[3], x[4]);
                let mk = mask64(i3 as u32 & 63, i4 as u32 & 63);
                let rot = b.rotate_left(i5 as u32 & 63);
                match k {
                    0x55 | 0x59 => {
                        if k == 0x59 { self.need(10, "risbgn")?; }
                        let v = if i4 & 0x80 != 0 { rot & mk } else { a & !mk | rot & mk };
                        self.w(r1, v);
                        if k == 0x55 { self.cc = ccs(v as i64, false); }
                    }
                    _ => {
                        let v = match k { 0x54 => a & rot, 0x56 => a | rot, _ => a ^ rot } & mk;
                        self.cc = (v != 0) as u8;
                        if i3 & 0x80 == 0 { self.w(r1, a & !mk | v); }
                    }
                }
            }
            k @ (0x51 | 0x5d) => {
                self.need(9, "risblg / risbhg")?;
                let (i3, i4, i5) = (x[2] as u32 & 31, x[3] as u32, x[4] as u32 & 63);
                let m32 = { let (p, q) = (i3, i4 & 31); let f = |y: u32| u32::MAX >> y; if p <= q { f(p) & !(f(q) >> 1) } else { f(p) | !(f(q) >> 1) } };
                let rot = b.rotate_left(i5);
                let (old, new) = if k == 0x51 { (a as u32, rot as u32) } else { ((a >> 32) as u32, (rot >> 32) as u32) };
                let v = if i4 & 0x80 != 0 { new & m32 } else { old & !m32 | new & m32 };
                if k == 0x51 { self.w32(r1, v); } else { self.w(r1, a & 0xffff_ffff | (v as u64) << 32); }
            }
            _ => return Err(Trap::Unknown(self.pc, format!("ec..{:02x}", x[5]))),
        }
        Ok(())
    }
    fn set_fcc(&mut self, v: f64) { self.cc = fcc(v, 0.0); }
    fn fp_rr(&mut self, x: &[u8; 6]) -> R<()> {
        let (r1, r2) = ((x[3] >> 4) as u32, (x[3] & 15) as u32);
        let (s1, s2, d1, d2) = (self.fs(r1), self.fs(r2), self.fd(r1), self.fd(r2));
        let f = f32::from_bits;
        let d = f64::from_bits;
        match x[1] {
            0x00 | 0x10 => { // lpebr, lpdbr
                if x[1] == 0 { self.wfs(r1, s2 & 0x7fff_ffff); self.set_fcc(f(s2 & 0x7fff_ffff) as f64); } else { self.wfd(r1, d2 << 1 >> 1); self.set_fcc(d(d2 << 1 >> 1)); }
            }
            0x01 => { self.wfs(r1, s2 | 1 << 31); self.set_fcc(f(s2 | 1 << 31) as f64); }
            0x11 => { self.wfd(r1, d2 | 1 << 63); self.set_fcc(d(d2 | 1 << 63)); }
            0x02 => { self.set_fcc(f(s2) as f64); let q = if f(s2).is_nan() { s2 | 0x40_0000 } else { s2 }; self.wfs(r1, q); }
            0x12 => { self.set_fcc(d(d2)); let q = if d(d2).is_nan() { d2 | 1 << 51 } else { d2 }; self.wfd(r1, q); }
            0x03 => { self.wfs(r1, s2 ^ 1 << 31); self.set_fcc(f(s2 ^ 1 << 31) as f64); }
            0x13 => { self.wfd(r1, d2 ^ 1 << 63); self.set_fcc(d(d2 ^ 1 << 63)); }
            0x04 => { // ldebr
                let v = if f(s2).is_nan() { (s2 as u64 & 1 << 31) << 32 | 0x7ff8_0000_0000_0000 | (s2 as u64 & 0x7f_ffff) << 29 } else { (f(s2) as f64).to_bits() };
                self.wfd(r1, v);
            }
            0x44 => { let v = if d(d2).is_nan() { (d2 >> 32) as u32 & 1 << 31 | 0x7fc0_0000 | (d2 >> 29) as u32 & 0x3f_ffff } else { (d(d2) as f32).to_bits() }; self.wfs(r1, v); }
            0x09 => self.cc = fcc(f(s1) as f64, f(s2) as f64),
            0x19 => self.cc = fcc(d(d1), d(d2)),
            k @ (0x0a | 0x0b) => { let v = arith32(k as u32 - 0x0a, s1, s2); self.wfs(r1, v); self.set_fcc(f(v) as f64); }
            k @ (0x1a | 0x1b) => { let v = arith64(k as u32 - 0x1a, d1, d2); self.wfd(r1, v); self.set_fcc(d(v)); }
            0x0d => self.wfs(r1, arith32(3, s1, s2)),
            0x17 => self.wfs(r1, arith32(2, s1, s2)),
            0x1c => self.wfd(r1, arith64(2, d1, d2)),
            0x1d => self.wfd(r1, arith64(3, d1, d2)),
            0x70 => self.wfd(r1, d2 << 1 >> 1),
            0x71 => self.wfd(r1, d2 | 1 << 63),
            0x72 => { let r3 = (x[2] >> 4) as u32; let s = self.fd(r3); self.wfd(r1, d2 << 1 >> 1 | s & 1 << 63); }
            0x73 => self.wfd(r1, d2 ^ 1 << 63),
            0x74 => self.wfs(r1, 0),
            0x75 => self.wfd(r1, 0),
            0x76 => { self.wfd(r1, 0); self.wfd(r1 + 2, 0); }
            0x65 => { let (h, l) = (self.fd(r2), self.fd(r2 + 2)); self.wfd(r1, h); self.wfd(r1 + 2, l); }
            k @ (0x98 | 0x99 | 0x9c | 0x9d | 0xa8 | 0xa9 | 0xac | 0xad) => {
                // to an integer: saturating, condition code 3 when out of range
                let v = if k & 1 == 0 { f(s2) as f64 } else { d(d2) };
                let t = match x[2] >> 4 { 5 => v.trunc(), 6 => v.ceil(), 7 => v.floor(), 1 => v.round(), _ => v.round_ties_even() };
                self.cc = if v.is_nan() { 3 } else if v == 0.0 { 0 } else if v < 0.0 { 1 } else { 2 };
                let (n, lo, hi) = match k { 0x98 | 0x99 => (t as i32 as u32 as u64, -2147483648.0, 2147483648.0), 0x9c | 0x9d => (t as u32 as u64, 0.0, 4294967296.0), 0xa8 | 0xa9 => (t as i64 as u64, -9223372036854775808.0, 9223372036854775808.0), _ => (t as u64, 0.0, 18446744073709551616.0) };
                if t < lo || t >= hi { self.cc = 3; }
                let signed = k & 4 == 0;
                if k & 0x20 == 0 { self.w32(r1, if v.is_nan() && signed { 1 << 31 } else { n as u32 }) } else { self.w(r1, if v.is_nan() && signed { 1 << 63 } else { n }) }
            }
            0x90 => { let v = self.r32(r2) as f32; self.wfs(r1, v.to_bits()); }
            0x91 => { let v = self.r32(r2) as f64; self.wfd(r1, v.to_bits()); }
            0xa0 => { let v = self.r(r2) as f32; self.wfs(r1, v.to_bits()); }
            0xa1 => { let v = self.r(r2) as f64; self.wfd(r1, v.to_bits()); }
            0x94 => { let v = self.r32(r2) as i32 as f32; self.wfs(r1, v.to_bits()); }
            0x95 => { let v = self.r32(r2) as i32 as f64; self.wfd(r1, v.to_bits()); }
            0xa4 => { let v = self.r(r2) as i64 as f32; self.wfs(r1, v.to_bits()); }
            0xa5 => { let v = self.r(r2) as i64 as f64; self.wfd(r1, v.to_bits()); }
            0xc1 => { let v = self.r(r2); self.wfd(r1, v); }
            0xcd => self.w(r1, d2),
            _ => return Err(Trap::Unknown(self.pc, format!("b3{:02x}", x[1]))),
        }
        Ok(())
    }
    fn rxe(&mut self, m: &mut Mem, x: &[u8; 6], ea: u64) -> R<()> {
        let r1 = (x[1] >> 4) as u32;
        let (s1, d1) = (self.fs(r1), self.fd(r1));
        let f = f32::from_bits;
        let d = f64::from_bits;
        match x[5] {
            0x10 => { let c = class(s1 >> 31 != 0, s1 << 1 == 0, f(s1).is_subnormal(), f(s1).is_infinite(), f(s1).is_nan(), s1 & 0x40_0000 != 0); self.cc = (c as u64 & ea != 0) as u8; }
            0x11 => { let c = class(d1 >> 63 != 0, d1 << 1 == 0, d(d1).is_subnormal(), d(d1).is_infinite(), d(d1).is_nan(), d1 & 1 << 51 != 0); self.cc = (c as u64 & ea != 0) as u8; }
            0x04 => { let v = self.ld(m, ea, 4)? as u32; self.wfd(r1, (f(v) as f64).to_bits()); }
            0x24 => { let v = self.ld(m, ea, 4)?; self.wfd(r1, v << 32); }
            0x09 => { let v = self.ld(m, ea, 4)? as u32; self.cc = fcc(f(s1) as f64, f(v) as f64); }
            0x19 => { let v = self.ld(m, ea, 8)?; self.cc = fcc(d(d1), d(v)); }
            k @ (0x0a | 0x0b) => { let v = self.ld(m, ea, 4)? as u32; let v = arith32(k as u32 - 0x0a, s1, v); self.wfs(r1, v); self.set_fcc(f(v) as f64); }
            k @ (0x1a | 0x1b) => { let v = self.ld(m, ea, 8)?; let v = arith64(k as u32 - 0x1a, d1, v); self.wfd(r1, v); self.set_fcc(d(v)); }
            0x0d => { let v = self.ld(m, ea, 4)? as u32; self.wfs(r1, arith32(3, s1, v)); }
            0x17 => { let v = self.ld(m, ea, 4)? as u32; self.wfs(r1, arith32(2, s1, v)); }
            0x1c => { let v = self.ld(m, ea, 8)?; self.wfd(r1, arith64(2, d1, v)); }
            0x1d => { let v = self.ld(m, ea, 8)?; self.wfd(r1, arith64(3, d1, v)); }
            0x64 | 0x65 | 0x66 | 0x67 => {
                let ea = { let x2 = (x[1] & 15) as u32; self.d20(x).wrapping_add(if x2 == 0 { 0 } else { self.r(x2) }) };
                match x[5] { 0x64 => { let v = self.ld(m, ea, 4)?; self.wfs(r1, v as u32) } 0x65 => { let v = self.ld(m, ea, 8)?; self.wfd(r1, v) } 0x66 => self.st(m, ea, 4, s1 as u64)?, _ => self.st(m, ea, 8, d1)? }
            }
            _ => return Err(Trap::Unknown(self.pc, format!("ed..{:02x}", x[5]))),
        }
        Ok(())
    }
    fn vec(&mut self, m: &mut Mem, x: &[u8; 6], ea: u64) -> R<()> {
        self.need(11, "a vector instruction")?;
        let rxb = x[4] as usize & 15;
        let v1 = (x[1] >> 4) as usize | (rxb & 8) << 1;
        let v2 = (x[1] & 15) as usize | (rxb & 4) << 2;
        let v3 = (x[2] >> 4) as usize | (rxb & 2) << 3;
        let m4 = (x[4] >> 4) as u32;
        let es = 8u32 << m4.min(4);
        let rr2 = (x[1] & 15) as u32;
        let d12 = { let b = (x[2] >> 4) as u32; (if b == 0 { 0 } else { self.r(b) }).wrapping_add((x[2] as u64 & 15) << 8 | x[3] as u64) };
        let em = |es: u32| if es >= 128 { u128::MAX } else { (1u128 << es) - 1 };
        match x[5] {
            0x44 => { let mk = u16::from_be_bytes([x[2], x[3]]); let mut v = 0u128; for i in 0..16 { if mk >> (15 - i) & 1 != 0 { v |= 0xffu128 << (8 * (15 - i)); } } self.v[v1] = v; }
            0x45 => { let i = i16::from_be_bytes([x[2], x[3]]) as i128 as u128 & em(es); let mut v = 0u128; for k in 0..128 / es { v |= i << (k * es); } self.v[v1] = v; }
            0x05 => { // replicate an element from memory
                let v = m.load(ea, es / 8, P)?;
                let mut r = 0u128;
                for k in 0..128 / es { r |= v << (k * es); }
                self.v[v1] = r;
            }
            0x46 => { // generate mask
                let (s, e) = (x[2] as u32 & (es - 1), x[3] as u32 & (es - 1));
                let mut b = 0u128;
                let mut i = s;
                loop { b |= 1u128 << (es - 1 - i); if i == e { break; } i = (i + 1) & (es - 1); }
                let mut r = 0u128;
                for k in 0..128 / es { r |= b << (k * es); }
                self.v[v1] = r;
            }
            0xf1 => { // carry out of each element's sum
                let (a, b) = (self.v[v2], self.v[v3]);
                let mut r = 0u128;
                if m4 == 4 { r = a.overflowing_add(b).1 as u128; } else { for k in 0..128 / es { r |= ((a >> (k * es) & em(es)) + (b >> (k * es) & em(es)) >> es) << (k * es); } }
                self.v[v1] = r;
            }
            0x70 | 0x72 | 0x73 | 0x78 | 0x7a => { // element shifts by vector (70 veslv, 78 vesrlv, 7a vesrav, 72/73 rotates)
                let (a, b) = (self.v[v2], self.v[v3]);
                let mut r = 0u128;
                for k in 0..128 / es {
                    let (p, n) = (a >> (k * es) & em(es), (b >> (k * es)) as u32 & (es - 1));
                    let v = match x[5] { 0x70 => p << n, 0x78 => p >> n, 0x7a => ((p << (128 - es)) as i128 >> (128 - es) >> n) as u128, _ => if n == 0 { p } else { p << n | p >> (es - n) } };
                    r |= (v & em(es)) << (k * es);
                }
                self.v[v1] = r;
            }
            0x67 | 0x65 | 0x64 => { // sums across elements: 64 vsum (to words), 65 vsumg, 67 vsumq
                let out = match x[5] { 0x64 => 32, 0x65 => 64, _ => 128u32 };
                let (a, b) = (self.v[v2], self.v[v3]);
                let mut r = 0u128;
                for k in 0..128 / out {
                    let mut s = b >> (k * out) & em(es);
                    for j in 0..out / es { s = s.wrapping_add(a >> (k * out + j * es) & em(es)); }
                    r |= (s & em(out)) << (k * out);
                }
                self.v[v1] = r;
            }
            0x06 => { // 16 bytes, not one access
                let h = m.load(ea, 8, P)?; let l = m.load(ea + 8, 8, P)?; self.v[v1] = h << 64 | l;
            }
            0x0e => { let v = self.v[v1]; m.store(ea, 8, v >> 64, false, false)?; m.store(ea + 8, 8, v as u64 as u128, false, false)?; }
            0x00..=0x03 => { // load element
                let s = 1u32 << [0, 1, 3, 2][x[5] as usize];
                let i = m4; let v = m.load(ea, s, P)?; let sh = 128 - 8 * s * (i + 1);
                self.v[v1] = self.v[v1] & !(em(8 * s) << sh) | v << sh;
            }
            0x08..=0x0b => { let s = 1u32 << [0, 1, 3, 2][x[5] as usize - 8]; let sh = 128 - 8 * s * (m4 + 1); m.store(ea, s, self.v[v1] >> sh & em(8 * s), false, false)?; }
            0x22 => { let i = d12 as u32 & (128 / es - 1); let sh = 128 - es * (i + 1); let v = (self.r(rr2) as u128) & em(es); self.v[v1] = self.v[v1] & !(em(es) << sh) | v << sh; }
            0x21 => { let i = d12 as u32 & (128 / es - 1); let sh = 128 - es * (i + 1); let v = (self.v[v2] >> sh & em(es)) as u64; self.w((x[1] >> 4) as u32, v); }
            0x62 => { let (h, l) = (self.r((x[1] & 15) as u32), self.r((x[2] >> 4) as u32)); self.v[v1] = (h as u128) << 64 | l as u128; }
            0x56 => self.v[v1] = self.v[v2],
            0x66 => self.v[v1] = self.v[v2],
            0x68 => self.v[v1] = self.v[v2] & self.v[v3],
            0x69 => self.v[v1] = self.v[v2] & !self.v[v3],
            0x6a => self.v[v1] = self.v[v2] | self.v[v3],
            0x6b => self.v[v1] = !(self.v[v2] | self.v[v3]),
            0x6c => self.v[v1] = !(self.v[v2] ^ self.v[v3]),
            0x6d => self.v[v1] = self.v[v2] ^ self.v[v3],
            0x6e => self.v[v1] = !(self.v[v2] & self.v[v3]),
            0x4d => { let i = u16::from_be_bytes([x[2], x[3]]) as u32; let v3 = (x[1] & 15) as usize | (rxb & 4) << 2; let sh = 128 - es * (i + 1); let e = self.v[v3] >> sh & em(es); let mut v = 0; for k in 0..128 / es { v |= e << (k * es); } self.v[v1] = v; }
            0x74 => { let n = self.v[v3] as u32 & 7; self.v[v1] = self.v[v2] << n; }
            0x75 => { let n = (self.v[v3] >> 64) as u32 & 0x78; self.v[v1] = self.v[v2] << n; }
            0x7c => { let n = self.v[v3] as u32 & 7; self.v[v1] = self.v[v2] >> n; }
            0x7d => { let n = (self.v[v3] >> 64) as u32 & 0x78; self.v[v1] = self.v[v2] >> n; }
            0xf3 | 0xf7 => { let (a, b) = (self.v[v2], self.v[v3]); let mut v = 0; for k in 0..128 / es { let (p, q) = (a >> (k * es) & em(es), b >> (k * es) & em(es)); v |= ((if x[5] == 0xf3 { p.wrapping_add(q) } else { p.wrapping_sub(q) }) & em(es)) << (k * es); } self.v[v1] = v; }
            k @ (0xe3 | 0xe2 | 0xe7 | 0xe5) => {
                let op = match k { 0xe3 => 0, 0xe2 => 1, 0xe7 => 2, _ => 3 };
                if x[3] & 8 == 0 && x[3] >> 4 & 8 == 0 && x[3] != 0x08 { return Err(Trap::Unknown(self.pc, format!("e7..{:02x} vector form", k))); }
                match m4 { 2 => { let r = arith32(op, (self.v[v2] >> 96) as u32, (self.v[v3] >> 96) as u32); self.v[v1] = (r as u128) << 96; } 3 => { let r = arith64(op, (self.v[v2] >> 64) as u64, (self.v[v3] >> 64) as u64); self.v[v1] = (r as u128) << 64; } _ => return Err(Trap::Unknown(self.pc, "vector float format".into())) }
            }
            k @ (0xee | 0xef) => {
                let max = k == 0xef;
                let m6 = x[3] >> 4;
                match m4 {
                    2 if m6 == 2 => { // a > b ? a : b
                        let (a, b) = ((self.v[v2] >> 96) as u32, (self.v[v3] >> 96) as u32);
                        let (p, q) = (f32::from_bits(a), f32::from_bits(b));
                        self.v[v1] = (if if max { p > q } else { p < q } { a } else { b } as u128) << 96;
                    }
                    3 if m6 == 2 => {
                        let (a, b) = ((self.v[v2] >> 64) as u64, (self.v[v3] >> 64) as u64);
                        let (p, q) = (f64::from_bits(a), f64::from_bits(b));
                        self.v[v1] = (if if max { p > q } else { p < q } { a } else { b } as u128) << 64;
                    }
                    _ if m6 != 4 => return Err(Trap::Unknown(self.pc, format!("vector minimum/maximum mode {m6}"))),
                    2 => {
                        let (a, b) = ((self.v[v2] >> 96) as u32, (self.v[v3] >> 96) as u32);
                        let r = if f32::from_bits(a).is_nan() && f32::from_bits(b).is_nan() { nan32(a, b, f32::NAN) } else if f32::from_bits(a).is_nan() { if a & 0x40_0000 == 0 { a | 0x40_0000 } else { b } } else if f32::from_bits(b).is_nan() { if b & 0x40_0000 == 0 { b | 0x40_0000 } else { a } } else { let (p, q) = (f32::from_bits(a), f32::from_bits(b)); if p == q { if max == (a >> 31 != 0) { b } else { a } } else if (p < q) != max { a } else { b } };
                        self.v[v1] = (r as u128) << 96;
                    }
                    3 => {
                        let (a, b) = ((self.v[v2] >> 64) as u64, (self.v[v3] >> 64) as u64);
                        let r = if f64::from_bits(a).is_nan() && f64::from_bits(b).is_nan() { nan64(a, b, f64::NAN) } else if f64::from_bits(a).is_nan() { if a & 1 << 51 == 0 { a | 1 << 51 } else { b } } else if f64::from_bits(b).is_nan() { if b & 1 << 51 == 0 { b | 1 << 51 } else { a } } else { let (p, q) = (f64::from_bits(a), f64::from_bits(b)); if p == q { if max == (a >> 63 != 0) { b } else { a } } else if (p < q) != max { a } else { b } };
                        self.v[v1] = (r as u128) << 64;
                    }
                    _ => return Err(Trap::Unknown(self.pc, "vector float format".into())),
                }
            }
            _ => return Err(Trap::Unknown(self.pc, format!("e7..{:02x}", x[5]))),
        }
        Ok(())
    }

    // ---------------------------------------------------------------- calls
    fn mark(i: u64) -> u64 { 0xA5A5_0000_5A5A_0000 | i * 0x0101 }
    pub fn start_call(&mut self, m: &mut Mem, f: u64, args: &[u64], sp: u64, ret: u64) {
        for i in 0..16 { self.g[i] = Self::mark(i as u64); }
        for i in 0..32 { self.v[i] = (0x1234_5678_0000_0000u128 | i as u128) << 64 | 0x77; }
        for (i, a) in args.iter().enumerate() { if i < 5 { self.g[2 + i] = *a; } }
        let sp = (sp & !15) - 160 - 64;
        for (i, a) in args.iter().enumerate().skip(5) { m.poke_private(sp + 160 + 8 * (i as u64 - 5), 8, *a as u128); }
        self.g[15] = sp;
        self.g[14] = ret;
        self.pc = f;
    }
    pub fn check_saved(&self, sp0: u64, nargs: usize) -> Option<String> {
        for i in 6..14u64 {
            if i == 6 && nargs > 4 { continue; }
            if self.g[i as usize] != Self::mark(i) { return Some(format!("callee-saved register r{i} changed from {:#x} to {:#x}", Self::mark(i), self.g[i as usize])); }
        }
        for i in 8..16u64 {
            let want = 0x1234_5678_0000_0000u64 | i;
            if self.fd(i as u32) != want { return Some(format!("callee-saved register f{i} changed from {want:#x} to {:#x}", self.fd(i as u32))); }
        }
        let sp = (sp0 & !15) - 160 - 64;
        if self.g[15] != sp { return Some(format!("stack pointer is {:#x} after return, expected {sp:#x}", self.g[15])); }
        None
    }
    pub fn arg(&self, m: &Mem, i: usize) -> u64 { if i < 5 { self.g[2 + i] } else { m.peek(self.g[15] + 160 + 8 * (i as u64 - 5), 8) as u64 } }
    pub fn do_return(&mut self, _m: &Mem, v: u64) {
        self.pc = self.g[14];
        for i in [0, 1, 3, 4, 5, 14] { self.g[i] = 0xC0C0_C0C0_C0C0_C0C0; }
        for i in 0..8 { self.v[i] = 0xC0C0_C0C0; }
        for i in 16..32 { self.v[i] = 0xC0C0_C0C0; }
        self.cc = 3;
        self.g[2] = v as u32 as i32 as i64 as u64;
    }
    pub fn sp(&self) -> u64 { self.g[15] }
}
