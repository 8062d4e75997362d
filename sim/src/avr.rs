//! AVR (AVRe+ / AVRxm) emulator: Harvard memory, SREG.I interrupt masking.
//! Program memory is mapped at `FLASH`; data addresses are used as they are.
use crate::mem::{Mem, Trap, LK};

pub const FLASH: u64 = 0x1_0000;
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct AvrFeat {
    /// Arithmetic flags and T on entry.
    pub status: u8,
    pub xmega: bool,
    /// XCH, LAC, LAS, LAT
    pub rmw: bool,
}
impl AvrFeat {
    pub fn full() -> AvrFeat { AvrFeat { status: 0, xmega: false, rmw: false } }
    pub fn bits(&self) -> u64 { self.status as u64 | (self.xmega as u64) << 8 | (self.rmw as u64) << 9 }
    pub fn from_bits(b: u64) -> AvrFeat { AvrFeat { status: b as u8, xmega: b >> 8 & 1 != 0, rmw: b >> 9 & 1 != 0 } }
}
const C: u8 = 1;
const Z: u8 = 2;
const N: u8 = 4;
const V: u8 = 8;
const S: u8 = 16;
const H: u8 = 32;
const T: u8 = 64;
const I: u8 = 128;
#[derive(Clone)]
pub struct Avr {
    r: [u8; 32],
    sp: u16,
    sreg: u8,
    pub pc: u64,
    f: AvrFeat,
    /// Instructions still executed before an interrupt can be taken, after SREG.I was set or (AVRxm) SPL written.
    delay: u8,
}
type R<X> = Result<X, Trap>;

impl Avr {
    pub fn new(f: AvrFeat) -> Avr { Avr { r: [0; 32], sp: 0, sreg: I, pc: 0, f, delay: 0 } }
    fn unk(&self, w: u16, s: &str) -> Trap { Trap::Unknown(self.pc, format!("{w:04x} ({s})")) }
    fn word(&self, m: &Mem, a: u64) -> R<u16> { match m.fetch(a, 2) { Some(x) if x.len() >= 2 => Ok(u16::from_le_bytes([x[0], x[1]])), _ => Err(Trap::Fault(a, "jump outside the program")) } }
    fn pair(&self, n: usize) -> u16 { self.r[n] as u16 | (self.r[n + 1] as u16) << 8 }
    fn set_pair(&mut self, n: usize, v: u16) { self.r[n] = v as u8; self.r[n + 1] = (v >> 8) as u8; }
    fn ld(&self, m: &mut Mem, a: u16) -> R<u8> { if a < 0x200 { return Err(Trap::Fault(a as u64, "access to registers or I/O space")); } Ok(m.load(a as u64, 1, LK::default())? as u8) }
    fn st(&self, m: &mut Mem, a: u16, v: u8) -> R<()> { if a < 0x200 { return Err(Trap::Fault(a as u64, "access to registers or I/O space")); } m.store(a as u64, 1, v as u128, false, false)?; Ok(()) }
    fn push(&mut self, m: &mut Mem, v: u8) -> R<()> { self.st(m, self.sp, v)?; self.sp = self.sp.wrapping_sub(1); Ok(()) }
    fn pop(&mut self, m: &mut Mem) -> R<u8> { self.sp = self.sp.wrapping_add(1); self.ld(m, self.sp) }
    fn call(&mut self, m: &mut Mem, to: u64, next: u64) -> R<u64> {
        let w = ((next - FLASH) / 2) as u16;
        self.push(m, w as u8)?;
        self.push(m, (w >> 8) as u8)?;
        Ok(to)
    }
    fn set_sreg(&mut self, v: u8) { if v & I != 0 && self.sreg & I == 0 { self.delay = 1; } self.sreg = v; }
    fn flags(&mut self, mask: u8, v: u8) { self.sreg = self.sreg & !mask | v & mask; }
    fn nz(r: u8, v: bool) -> u8 { let n = r & 0x80 != 0; (if r == 0 { Z } else { 0 }) | (if n { N } else { 0 }) | (if v { V } else { 0 }) | (if n != v { S } else { 0 }) }
    fn add(&mut self, d: u8, s: u8, c: bool) -> u8 {
        let t = d as u16 + s as u16 + c as u16;
        let r = t as u8;
        let cy = d & s | s & !r | !r & d;
        let v = (d ^ r) & (s ^ r) & 0x80 != 0;
        self.flags(C | Z | N | V | S | H, Self::nz(r, v) | (t > 255) as u8 * C | (cy >> 3 & 1) * H);
        r
    }
    /// `keep`: Z can only be cleared (multi-byte compare and subtract).
    fn sub(&mut self, d: u8, s: u8, c: bool, keep: bool) -> u8 {
        let r = d.wrapping_sub(s).wrapping_sub(c as u8);
        let b = !d & s | s & r | r & !d;
        let v = (d ^ s) & (d ^ r) & 0x80 != 0;
        let z0 = self.sreg & Z;
        self.flags(C | Z | N | V | S | H, Self::nz(r, v) | (b >> 7 & 1) * C | (b >> 3 & 1) * H);
        if keep && r == 0 { self.flags(Z, z0); }
        r
    }
    fn logic(&mut self, r: u8) -> u8 { self.flags(Z | N | V | S, Self::nz(r, false)); r }
    fn shr(&mut self, d: u8, top: u8) -> u8 {
        let r = d >> 1 | top;
        let (c, n) = (d & 1 != 0, r & 0x80 != 0);
        self.flags(C | Z | N | V | S, Self::nz(r, n != c) | c as u8 * C);
        r
    }
    pub fn step(&mut self, m: &mut Mem) -> R<()> {
        let old = self.clone();
        let r = self.exec(m);
        if r.is_err() { *self = old; }
        r
    }
    fn exec(&mut self, m: &mut Mem) -> R<()> {
        let pc = self.pc;
        let w = self.word(m, pc)?;
        self.delay = self.delay.saturating_sub(1);
        let mut next = pc + 2;
        let d = (w >> 4 & 31) as usize;
        let s = (w & 15 | w >> 5 & 16) as usize;
        let hi = (w >> 4 & 15) as usize + 16;
        let k = (w & 15 | w >> 4 & 0xf0) as u8;
        let c = self.sreg & C != 0;
        let two = |me: &Self, m: &Mem, a: u64| me.word(m, a).map(|x| x & 0xfe0e == 0x940c || x & 0xfe0e == 0x940e || x & 0xfc0f == 0x9000);
        match w >> 12 {
            0 => match w >> 10 & 3 {
                0 if w == 0 => {}
                0 if w >> 8 == 1 => { let (a, b) = ((w >> 4 & 15) as usize * 2, (w & 15) as usize * 2); let v = self.pair(b); self.set_pair(a, v); }
                0 if w >> 8 == 2 => { let t = (self.r[hi] as i8 as i16 * self.r[(w & 15) as usize + 16] as i8 as i16) as u16; self.mul(t); }
                0 if w >> 8 == 3 && w & 0x88 == 0 => { let t = (self.r[16 + (w >> 4 & 7) as usize] as i8 as i16).wrapping_mul(self.r[16 + (w & 7) as usize] as i16) as u16; self.mul(t); }
                1 => { self.sub(self.r[d], self.r[s], c, true); }
                2 => self.r[d] = self.sub(self.r[d], self.r[s], c, true),
                3 => self.r[d] = self.add(self.r[d], self.r[s], false),
                _ => return Err(self.unk(w, "fractional multiply")),
            },
            1 => match w >> 10 & 3 {
                0 => if self.r[d] == self.r[s] { next += if two(self, m, next)? { 4 } else { 2 }; },
                1 => { self.sub(self.r[d], self.r[s], false, false); }
                2 => self.r[d] = self.sub(self.r[d], self.r[s], false, false),
                _ => self.r[d] = self.add(self.r[d], self.r[s], c),
            },
            2 => match w >> 10 & 3 {
                0 => self.r[d] = self.logic(self.r[d] & self.r[s]),
                1 => self.r[d] = self.logic(self.r[d] ^ self.r[s]),
                2 => self.r[d] = self.logic(self.r[d] | self.r[s]),
                _ => self.r[d] = self.r[s],
            },
            3 => { self.sub(self.r[hi], k, false, false); }
            4 => self.r[hi] = self.sub(self.r[hi], k, c, true),
            5 => self.r[hi] = self.sub(self.r[hi], k, false, false),
            6 => self.r[hi] = self.logic(self.r[hi] | k),
            7 => self.r[hi] = self.logic(self.r[hi] & k),
            8 | 10 => {
                let q = w & 7 | w >> 7 & 0x18 | w >> 8 & 0x20;
                let a = self.pair(if w & 8 != 0 { 28 } else { 30 }).wrapping_add(q);
                if w & 0x200 != 0 { self.st(m, a, self.r[d])?; } else { self.r[d] = self.ld(m, a)?; }
            }
            9 => match w >> 9 & 7 {
                0 => self.r[d] = match w & 15 {
                    0 => { let a = self.word(m, next)?; next += 2; self.ld(m, a)? }
                    x @ (1 | 9 | 13) => { let n = match x { 1 => 30, 9 => 28, _ => 26 }; self.inc_ld(m, n)? }
                    x @ (2 | 10 | 14) => { let n = match x { 2 => 30, 10 => 28, _ => 26 }; let a = self.pair(n).wrapping_sub(1); let v = self.ld(m, a)?; self.set_pair(n, a); v }
                    12 => self.ld(m, self.pair(26))?,
                    x @ (4 | 5) => {
                        let z = self.pair(30);
                        let Some(b) = m.fetch(FLASH + z as u64, 1).map(|b| b[0]) else { return Err(Trap::Fault(z as u64, "lpm outside the program")) };
                        if x == 5 { self.set_pair(30, z.wrapping_add(1)); }
                        b
                    }
                    15 => self.pop(m)?,
                    _ => return Err(self.unk(w, "load")),
                },
                1 => {
                    let v = self.r[d];
                    match w & 15 {
                        0 => { let a = self.word(m, next)?; next += 2; self.st(m, a, v)?; }
                        x @ (1 | 9 | 13) => { let n = match x { 1 => 30, 9 => 28, _ => 26 }; let a = self.pair(n); self.st(m, a, v)?; self.set_pair(n, a.wrapping_add(1)); }
                        x @ (2 | 10 | 14) => { let n = match x { 2 => 30, 10 => 28, _ => 26 }; let a = self.pair(n).wrapping_sub(1); self.st(m, a, v)?; self.set_pair(n, a); }
                        12 => self.st(m, self.pair(26), v)?,
                        x @ 4..=7 => {
                            if !self.f.rmw { return Err(Trap::Illegal(pc, "xch/las/lac/lat without the RMW extension".into())); }
                            let a = self.pair(30);
                            if a < 0x200 { return Err(Trap::Fault(a as u64, "access to registers or I/O space")); }
                            self.r[d] = m.rmw(a as u64, 1, false, false, &mut |o| { let o = o as u8; Some(match x { 4 => v, 5 => o | v, 6 => o & !v, _ => o ^ v } as u128) })? as u8;
                        }
                        15 => self.push(m, v)?,
                        _ => return Err(self.unk(w, "store")),
                    }
                }
                2 => {
                    let v = self.r[d];
                    match w & 15 {
                        0 => { let r = !v; self.flags(C | Z | N | V | S, Self::nz(r, false) | C); self.r[d] = r; }
                        1 => { self.r[d] = self.sub(0, v, false, false); }
                        2 => self.r[d] = v.rotate_left(4),
                        3 => { let r = v.wrapping_add(1); self.flags(Z | N | V | S, Self::nz(r, r == 0x80)); self.r[d] = r; }
                        5 => self.r[d] = self.shr(v, v & 0x80),
                        6 => self.r[d] = self.shr(v, 0),
                        7 => self.r[d] = self.shr(v, (c as u8) << 7),
                        10 => { let r = v.wrapping_sub(1); self.flags(Z | N | V | S, Self::nz(r, r == 0x7f)); self.r[d] = r; }
                        8 if w & 0xff0f == 0x9408 => { let b = 1u8 << (w >> 4 & 7); let n = if w & 0x80 == 0 { self.sreg | b } else { self.sreg & !b }; self.set_sreg(n); }
                        8 => match w {
                            0x9508 => { let h = self.pop(m)?; let l = self.pop(m)?; next = FLASH + (l as u64 | (h as u64) << 8) * 2; }
                            0x9598 => return Err(Trap::Abort(pc, "break".into())),
                            0x95a8 => {}
                            0x95c8 => { let z = self.pair(30); let Some(b) = m.fetch(FLASH + z as u64, 1).map(|b| b[0]) else { return Err(Trap::Fault(z as u64, "lpm outside the program")) }; self.r[0] = b; }
                            _ => return Err(self.unk(w, "control")),
                        },
                        9 => match w {
                            0x9409 => next = FLASH + self.pair(30) as u64 * 2,
                            0x9509 => next = self.call(m, FLASH + self.pair(30) as u64 * 2, next)?,
                            _ => return Err(self.unk(w, "extended jump")),
                        },
                        12..=15 => {
                            let x = self.word(m, next)?;
                            let t = FLASH + ((x as u64) | ((w & 1 | w >> 3 & 0x3e) as u64) << 16) * 2;
                            next += 2;
                            next = if w & 2 != 0 { self.call(m, t, next)? } else { t };
                        }
                        _ => return Err(self.unk(w, "one operand")),
                    }
                }
                3 => {
                    let n = 24 + (w >> 4 & 3) as usize * 2;
                    let k = w & 15 | w >> 2 & 0x30;
                    let o = self.pair(n);
                    let sub = w & 0x100 != 0;
                    let r = if sub { o.wrapping_sub(k) } else { o.wrapping_add(k) };
                    self.set_pair(n, r);
                    let (n, v, cy) = (r & 0x8000 != 0, if sub { o & !r } else { !o & r } & 0x8000 != 0, if sub { r & !o } else { !r & o } & 0x8000 != 0);
                    self.flags(C | Z | N | V | S, (if r == 0 { Z } else { 0 }) | (if n { N } else { 0 }) | (if v { V } else { 0 }) | (if n != v { S } else { 0 }) | (if cy { C } else { 0 }));
                }
                6 | 7 => { let t = self.r[d] as u16 * self.r[s] as u16; self.mul(t); }
                _ => return Err(self.unk(w, "I/O bit")),
            },
            11 => {
                let a = w & 15 | w >> 5 & 0x30;
                if w & 0x800 == 0 {
                    self.r[d] = match a { 0x3f => self.sreg, 0x3e => (self.sp >> 8) as u8, 0x3d => self.sp as u8, _ => return Err(self.unk(w, "in")) };
                } else {
                    let v = self.r[d];
                    match a {
                        0x3f => self.set_sreg(v),
                        0x3e => { self.sp = self.sp & 0xff | (v as u16) << 8; if self.f.xmega { self.delay = 0; } }
                        // AVRxm: a write to SPL keeps interrupts away for up to four instructions or until SPH is written
                        0x3d => { self.sp = self.sp & 0xff00 | v as u16; if self.f.xmega { self.delay = self.delay.max(4); } }
                        _ => return Err(self.unk(w, "out")),
                    }
                }
            }
            12 => next = next.wrapping_add(((w << 4) as i16 >> 3) as i64 as u64),
            13 => { let t = next.wrapping_add(((w << 4) as i16 >> 3) as i64 as u64); next = self.call(m, t, next)?; }
            14 => self.r[hi] = k,
            _ => match w >> 10 & 3 {
                x @ (0 | 1) => if (self.sreg >> (w & 7) & 1 != 0) == (x == 0) { next = next.wrapping_add((((w << 6) as i16 >> 9) * 2) as i64 as u64); },
                2 if w & 8 == 0 => { let b = 1u8 << (w & 7); if w & 0x200 == 0 { if self.sreg & T != 0 { self.r[d] |= b } else { self.r[d] &= !b } } else { let t = if self.r[d] & b != 0 { T } else { 0 }; self.flags(T, t); } }
                3 if w & 8 == 0 => if (self.r[d] >> (w & 7) & 1 != 0) == (w & 0x200 != 0) { next += if two(self, m, next)? { 4 } else { 2 }; },
                _ => return Err(self.unk(w, "bit")),
            },
        }
        self.pc = next;
        Ok(())
    }
    fn inc_ld(&mut self, m: &mut Mem, n: usize) -> R<u8> { let a = self.pair(n); let v = self.ld(m, a)?; self.set_pair(n, a.wrapping_add(1)); Ok(v) }
    fn mul(&mut self, t: u16) { self.set_pair(0, t); self.flags(C | Z, (if t == 0 { Z } else { 0 }) | (if t & 0x8000 != 0 { C } else { 0 })); }

    fn mark(i: usize) -> u8 { 0xA0 ^ (i as u8).wrapping_mul(37) }
    pub fn start_call(&mut self, m: &mut Mem, f: u64, args: &[u64], sp: u64, ret: u64) {
        for i in 0..32 { self.r[i] = Self::mark(i); }
        self.r[1] = 0;
        for (i, a) in args.iter().enumerate() { self.set_pair(24 - 2 * i, *a as u16); }
        self.sp = sp as u16;
        let w = ((ret - FLASH) / 2) as u16;
        m.poke_private(self.sp as u64, 1, (w & 0xff) as u128);
        m.poke_private(self.sp as u64 - 1, 1, (w >> 8) as u128);
        self.sp -= 2;
        self.sreg = self.sreg & I | self.f.status & !I;
        self.pc = f;
    }
    pub fn check_saved(&self, sp0: u64, _n: usize) -> Option<String> {
        for i in (2..18).chain([28, 29]) { if self.r[i] != Self::mark(i) { return Some(format!("callee-saved register r{i} changed from {:#x} to {:#x}", Self::mark(i), self.r[i])); } }
        if self.r[1] != 0 { return Some(format!("the zero register r1 is {:#x} after return", self.r[1])); }
        if self.sp != sp0 as u16 { return Some(format!("stack pointer is {:#x} after return, expected {:#x}", self.sp, sp0)); }
        None
    }
    pub fn arg(&self, _m: &Mem, i: usize) -> u64 { self.pair(24 - 2 * i) as u64 }
    pub fn arg_u32(&self) -> u32 { self.pair(22) as u32 | (self.pair(24) as u32) << 16 }
    /// Host functions return 32 bits in r22..r25.
    pub fn do_return(&mut self, m: &Mem, v: u64) {
        let (h, l) = (m.peek(self.sp as u64 + 1, 1) as u64, m.peek(self.sp as u64 + 2, 1) as u64);
        self.sp += 2;
        self.pc = FLASH + (l | h << 8) * 2;
        for i in [0, 18, 19, 20, 21, 26, 27, 30, 31] { self.r[i] = 0xC0; }
        self.set_pair(22, v as u16);
        self.set_pair(24, (v >> 16) as u16);
        self.sreg ^= 0x7f;
    }
    pub fn sp(&self) -> u64 { self.sp as u64 }
    pub fn irq_on(&self) -> bool { self.sreg & I != 0 && self.delay == 0 }
    pub fn set_irq(&mut self, on: bool) { self.delay = 0; if on { self.sreg |= I } else { self.sreg &= !I } }
}
