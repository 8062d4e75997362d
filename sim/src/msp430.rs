//! MSP430 (16-bit core) emulator with GIE interrupt masking.
use crate::mem::{Mem, Trap, LK};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct MspFeat {
    /// Initial status register control bits (SCG0, SCG1).
    pub status: u16,
}
impl MspFeat {
    pub fn full() -> MspFeat { MspFeat { status: 0 } }
    pub fn bits(&self) -> u64 { self.status as u64 }
    pub fn from_bits(b: u64) -> MspFeat { MspFeat { status: b as u16 } }
}
const C: u16 = 1;
const Z: u16 = 2;
const N: u16 = 4;
const GIE: u16 = 8;
const V: u16 = 0x100;
#[derive(Clone)]
pub struct Msp {
    /// r[0] = PC, r[1] = SP, r[2] = SR
    r: [u16; 16],
    pub pc: u64,
    /// Instruction boundaries at which an interrupt can still be taken after GIE was cleared (the user's
    /// guide requires one instruction between DINT and the protected sequence).
    late: u8,
}
/// Compiler runtime functions that the Rust toolchain does not ship for this target, computed by the emulator.
pub const RT: &[&str] = &["__mspabi_slll", "__mspabi_srll", "__mspabi_mpyi"];
pub const RT_BASE: u64 = 0xfe00;
type R<T> = Result<T, Trap>;
#[derive(Clone, Copy)]
enum Loc { Reg(usize), Mem(u16), Imm(u16) }

impl Msp {
    pub fn new(f: MspFeat) -> Msp { let mut r = [0; 16]; r[2] = GIE | f.status & 0xc0; Msp { r, pc: 0, late: 0 } }
    fn unk(&self, w: u16, s: &str) -> Trap { Trap::Unknown(self.pc, format!("{w:04x} ({s})")) }
    fn mis(a: u16, b: bool) -> R<()> { if !b && a & 1 != 0 { Err(Trap::Fault(a as u64, "word access to an odd address")) } else { Ok(()) } }
    fn ext(&mut self, m: &Mem) -> R<(u16, u16)> {
        let a = self.r[0];
        let v = match m.fetch(a as u64, 2) { Some(x) if x.len() >= 2 => u16::from_le_bytes([x[0], x[1]]), _ => return Err(Trap::Fault(a as u64, "jump outside the program")) };
        self.r[0] = a.wrapping_add(2);
        Ok((a, v))
    }
    /// Resolves a source operand.
    fn src(&mut self, m: &Mem, n: usize, a: u16, b: bool) -> R<Loc> {
        Ok(match (n, a) {
            (3, k) => Loc::Imm([0, 1, 2, 0xffff][k as usize]),
            (2, 2) => Loc::Imm(4),
            (2, 3) => Loc::Imm(8),
            (_, 0) => Loc::Reg(n),
            (_, 1) => self.idx(m, n)?,
            (_, 2) => Loc::Mem(self.r[n]),
            (0, _) => Loc::Imm(self.ext(m)?.1),
            _ => { let x = self.r[n]; self.r[n] = x.wrapping_add(if b && n != 1 { 1 } else { 2 }); Loc::Mem(x) }
        })
    }
    fn idx(&mut self, m: &Mem, n: usize) -> R<Loc> {
        let (at, x) = self.ext(m)?;
        Ok(Loc::Mem(x.wrapping_add(match n { 0 => at, 2 => 0, _ => self.r[n] })))
    }
    fn get(&self, m: &mut Mem, l: Loc, b: bool) -> R<u16> {
        let v = match l {
            Loc::Reg(n) => self.r[n],
            Loc::Imm(v) => v,
            Loc::Mem(a) => { Self::mis(a, b)?; m.load(a as u64, if b { 1 } else { 2 }, LK::default())? as u16 }
        };
        Ok(if b { v & 0xff } else { v })
    }
    fn setr(&mut self, n: usize, v: u16) {
        match n {
            0 => self.r[0] = v & !1,
            2 => {
                if self.r[2] & GIE != 0 && v & GIE == 0 { self.late = 2; }
                self.r[2] = v & 0x1ff;
            }
            3 => {}
            _ => self.r[n] = v,
        }
    }
    /// Read-modify-write of an operand; `f` gives the new value (None = no write).
    fn upd(&mut self, m: &mut Mem, l: Loc, b: bool, read: bool, f: &mut dyn FnMut(&mut Self, u16) -> Option<u16>) -> R<()> {
        match l {
            Loc::Reg(n) => {
                let o = if b { self.r[n] & 0xff } else { self.r[n] };
                if let Some(v) = f(self, o) { self.setr(n, if b { v & 0xff } else { v }); }
            }
            Loc::Mem(a) => {
                Self::mis(a, b)?;
                let sz = if b { 1 } else { 2 };
                if !read {
                    let v = f(self, 0).unwrap();
                    m.store(a as u64, sz, if b { v & 0xff } else { v } as u128, false, false)?;
                } else {
                    let mut me = self.clone();
                    let mut wr = None;
                    m.rmw(a as u64, sz, false, false, &mut |o| { me = self.clone(); wr = f(&mut me, o as u16).map(|v| if b { v & 0xff } else { v } as u128); wr })?;
                    *self = me;
                }
            }
            Loc::Imm(_) => { let _ = f(self, 0); }
        }
        Ok(())
    }
    fn fl(&mut self, c: bool, v: bool, r: u16, b: bool) {
        let s = if b { 0x80 } else { 0x8000 };
        self.r[2] = self.r[2] & !(C | Z | N | V) | if c { C } else { 0 } | if r == 0 { Z } else { 0 } | if r & s != 0 { N } else { 0 } | if v { V } else { 0 };
    }
    fn add(&mut self, x: u16, y: u16, c: bool, b: bool) -> u16 {
        let (mask, s) = if b { (0xffu32, 0x80) } else { (0xffff, 0x8000) };
        let (x, y) = (x as u32 & mask, y as u32 & mask);
        let t = x + y + c as u32;
        let r = t & mask;
        self.fl(t > mask, (x ^ r) & (y ^ r) & s != 0, r as u16, b);
        r as u16
    }
    pub fn step(&mut self, m: &mut Mem) -> R<()> {
        if self.pc >= RT_BASE && self.pc < RT_BASE + 0x100 {
            let (l, n) = (self.r[12] as u32 | (self.r[13] as u32) << 16, self.r[14] as u32);
            let v = match (self.pc - RT_BASE) / 2 {
                0 => l.checked_shl(n).unwrap_or(0),
                1 => l.checked_shr(n).unwrap_or(0),
                2 => self.r[12].wrapping_mul(self.r[13]) as u32 | 0xC0C0_0000,
                _ => return Err(Trap::Fault(self.pc, "jump outside the program")),
            };
            self.late = 0;
            self.do_return(m, v as u64);
            return Ok(());
        }
        let old = self.clone();
        self.r[0] = self.pc as u16;
        self.late = self.late.saturating_sub(1);
        let r = self.exec(m);
        if r.is_err() { *self = old; return r; }
        self.pc = self.r[0] as u64;
        Ok(())
    }
    fn exec(&mut self, m: &mut Mem) -> R<()> {
        if self.pc & 1 != 0 { return Err(Trap::Fault(self.pc, "misaligned branch")); }
        let w = self.ext(m)?.1;
        let b = w & 0x40 != 0;
        match w >> 12 {
            1 => {
                let (n, a) = ((w & 15) as usize, w >> 4 & 3);
                let op = w >> 7 & 31;
                match op {
                    0 | 1 | 2 | 3 => {
                        if op & 1 != 0 && b { return Err(self.unk(w, "byte form")); }
                        let l = self.src(m, n, a, b)?;
                        self.upd(m, l, b, true, &mut |me, x| Some(match op {
                            0 => { let (c, s) = (me.r[2] & C, if b { 7 } else { 15 }); let r = x >> 1 | c << s; me.fl(x & 1 != 0, false, r, b); r }
                            1 => x.swap_bytes(),
                            2 => { let s = if b { 0x80 } else { 0x8000 }; let r = x >> 1 | x & s; me.fl(x & 1 != 0, false, r, b); r }
                            _ => { let r = x as u8 as i8 as u16; me.fl(r != 0, false, r, false); r }
                        }))?;
                    }
                    4 => {
                        let l = self.src(m, n, a, b)?;
                        let v = self.get(m, l, b)?;
                        self.r[1] = self.r[1].wrapping_sub(2);
                        Self::mis(self.r[1], false)?;
                        m.store(self.r[1] as u64, if b { 1 } else { 2 }, v as u128, false, false)?;
                    }
                    5 => {
                        let l = self.src(m, n, a, false)?;
                        let v = self.get(m, l, false)?;
                        self.r[1] = self.r[1].wrapping_sub(2);
                        Self::mis(self.r[1], false)?;
                        m.store(self.r[1] as u64, 2, self.r[0] as u128, false, false)?;
                        self.r[0] = v;
                    }
                    6 => return Err(Trap::Illegal(self.pc, "reti outside an interrupt handler".into())),
                    _ => return Err(self.unk(w, "format II")),
                }
            }
            2 | 3 => {
                let f = self.r[2];
                let (c, z, n, v) = (f & C != 0, f & Z != 0, f & N != 0, f & V != 0);
                if match w >> 10 & 7 { 0 => !z, 1 => z, 2 => !c, 3 => c, 4 => n, 5 => n == v, 6 => n != v, _ => true } {
                    let o = ((w << 6) as i16 >> 6) as u16;
                    self.r[0] = self.r[0].wrapping_add(o.wrapping_mul(2));
                }
            }
            op @ 4..=15 => {
                let (sn, dn) = ((w >> 8 & 15) as usize, (w & 15) as usize);
                let s = self.src(m, sn, w >> 4 & 3, b)?;
                // the source is read before the destination's extension word is fetched
                let x = self.get(m, s, b)?;
                let d = if w & 0x80 != 0 { self.idx(m, dn)? } else { Loc::Reg(dn) };
                if matches!(op, 9 | 11) {
                    let y = self.get(m, d, b)?;
                    if op == 9 { self.add(y, !x, true, b); } else { let r = x & y; self.fl(r != 0, false, r, b); }
                    return Ok(());
                }
                if op == 10 { return Err(self.unk(w, "dadd")); }
                self.upd(m, d, b, op != 4, &mut |me, y| Some(match op {
                    4 => x,
                    5 => me.add(y, x, false, b),
                    6 => { let c = me.r[2] & C != 0; me.add(y, x, c, b) }
                    7 => { let c = me.r[2] & C != 0; me.add(y, !x, c, b) }
                    8 => me.add(y, !x, true, b),
                    12 => y & !x,
                    13 => y | x,
                    14 => { let s = if b { 0x80 } else { 0x8000 }; let r = x ^ y; me.fl(r != 0, x & y & s != 0, r, b); r }
                    _ => { let r = x & y; me.fl(r != 0, false, r, b); r }
                }))?;
            }
            _ => return Err(self.unk(w, "extended instruction")),
        }
        Ok(())
    }
    fn mark(i: usize) -> u16 { 0xA500 | (i as u16) << 4 | 5 }
    pub fn start_call(&mut self, m: &mut Mem, f: u64, args: &[u64], sp: u64, ret: u64) {
        for i in 4..16 { self.r[i] = Self::mark(i); }
        for (i, a) in args.iter().enumerate() { self.r[12 + i] = *a as u16; }
        self.r[1] = (sp as u16 & !1) - 2;
        self.r[2] |= C | Z;
        m.poke_private(self.r[1] as u64, 2, ret as u128);
        self.pc = f;
    }
    pub fn check_saved(&self, sp0: u64, _n: usize) -> Option<String> {
        for i in 4..11 { if self.r[i] != Self::mark(i) { return Some(format!("callee-saved register r{i} changed from {:#x} to {:#x}", Self::mark(i), self.r[i])); } }
        if self.r[1] != sp0 as u16 & !1 { return Some(format!("stack pointer is {:#x} after return, expected {:#x}", self.r[1], sp0 & !1)); }
        None
    }
    pub fn arg(&self, _m: &Mem, i: usize) -> u64 { self.r[12 + i] as u64 }
    pub fn do_return(&mut self, m: &Mem, v: u64) {
        self.pc = m.peek(self.r[1] as u64, 2) as u64;
        self.r[1] = self.r[1].wrapping_add(2);
        for i in [11, 14, 15] { self.r[i] = 0xC0C0; }
        self.r[12] = v as u16;
        self.r[13] = (v >> 16) as u16;
        self.r[2] &= !(C | Z | N | V);
    }
    pub fn sp(&self) -> u64 { self.r[1] as u64 }
    pub fn irq_on(&self) -> bool { self.r[2] & GIE != 0 || self.late > 0 }
    pub fn set_irq(&mut self, on: bool) { self.late = 0; if on { self.r[2] |= GIE } else { self.r[2] &= !GIE } }
    /// Everything in SR but the arithmetic flags.
    pub fn status(&self) -> u64 { (self.r[2] & 0xf8) as u64 }
}
