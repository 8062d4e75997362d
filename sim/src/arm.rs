//! 32-bit Arm emulator: A32 (ARMv4T to ARMv7-A, integer) and Thumb-1 plus the ARMv8-M baseline additions,
//! with CPSR / PRIMASK interrupt masking and the Linux kernel user helpers.
use crate::mem::{Mem, Trap, LK};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct ArmFeat {
    /// architecture version 4, 5, 6, 7
    pub ver: u8,
    /// M-profile (PRIMASK)
    pub m: bool,
    /// Interrupts may also arrive as FIQ.
    pub fiq: bool,
    /// Linux user helpers: version word; 0 = no helper page
    pub kuser: u32,
    /// Initial processor state bits (mode, F).
    pub status: u32,
}
impl ArmFeat {
    pub fn full() -> ArmFeat { ArmFeat { ver: 7, m: false, fiq: false, kuser: 0, status: 0x13 } }
    pub fn bits(&self) -> u64 { self.ver as u64 | (self.m as u64) << 8 | (self.fiq as u64) << 9 | (self.kuser as u64 & 0xff) << 16 | (self.status as u64 & 0xff) << 32 }
    pub fn from_bits(b: u64) -> ArmFeat { ArmFeat { ver: b as u8, m: b >> 8 & 1 != 0, fiq: b >> 9 & 1 != 0, kuser: (b >> 16 & 0xff) as u32, status: (b >> 32 & 0xff) as u32 } }
}
#[derive(Clone)]
pub struct ArmCpu {
    r: [u32; 15],
    pub pc: u64,
    npc: u32,
    t: bool,
    n: bool,
    z: bool,
    c: bool,
    v: bool,
    /// CPSR control bits (I 0x80, F 0x40, mode) or PRIMASK in bit 0
    ctl: u32,
    pub feat: ArmFeat,
}
type R<T> = Result<T, Trap>;
fn b(w: u32, hi: u32, lo: u32) -> u32 { w >> lo & ((1u64 << (hi - lo + 1)) - 1) as u32 }
fn sx(v: u32, n: u32) -> u32 { ((v << (32 - n)) as i32 >> (32 - n)) as u32 }

impl ArmCpu {
    pub fn new(feat: ArmFeat) -> ArmCpu {
        let ctl = if feat.m { 0 } else { feat.status & !0x80 & if feat.fiq { !0x40 } else { !0 } };
        ArmCpu { r: [0; 15], pc: 0, npc: 0, t: false, n: false, z: false, c: false, v: false, ctl, feat }
    }
    fn unk(&self, w: u32, s: &str) -> Trap { Trap::Unknown(self.pc, format!("{w:08x} ({s}, {})", if self.t { "thumb" } else { "arm" })) }
    fn ill(&self, s: &str) -> Trap { Trap::Illegal(self.pc, s.into()) }
    #[inline]
    fn g(&self, i: u32) -> u32 { if i == 15 { self.pc as u32 + if self.t { 4 } else { 8 } } else { self.r[i as usize] } }
    fn bx(&mut self, m: &Mem, v: u32) -> R<()> {
        let s = m.lay.stub as u32;
        if v & !1 >= s && v & !1 < s + 0x100 || v >= 0xffff_0f00 { self.npc = v & !1; return Ok(()); }
        if self.feat.m { if v & 1 == 0 { return Err(Trap::Fault(v as u64, "branch to a non-Thumb address on an M-profile CPU")); } } else { self.t = v & 1 != 0; }
        if v & 3 == 2 { return Err(Trap::Fault(v as u64, "misaligned branch")); }
        self.npc = v & !1;
        Ok(())
    }
    /// Load into PC.
    fn lpc(&mut self, m: &Mem, v: u32) -> R<()> {
        if self.feat.ver < 5 && !self.t {
            if v & 3 != 0 { return Err(Trap::Fault(v as u64, "load of a Thumb address to PC on ARMv4T")); }
            self.npc = v;
            return Ok(());
        }
        if self.feat.ver < 5 { self.npc = v & !1; return Ok(()); }
        self.bx(m, v)
    }
    fn w(&mut self, m: &Mem, i: u32, v: u32) -> R<()> {
        if i == 15 { if self.t { self.npc = v & !1; Ok(()) } else if self.feat.ver >= 7 { self.bx(m, v) } else { self.npc = v & !3; Ok(()) } } else { self.r[i as usize] = v; Ok(()) }
    }
    fn ld(&self, m: &mut Mem, a: u32, s: u32, k: LK) -> R<u32> {
        if self.feat.kuser != 0 && a == 0xffff_0ffc && s == 4 { return Ok(self.feat.kuser); }
        if a & (s - 1) != 0 && (self.feat.ver < 7 || self.feat.m) { return Err(Trap::Fault(a as u64, "misaligned load")); }
        Ok(m.load(a as u64, s, k)? as u32)
    }
    fn st(&self, m: &mut Mem, a: u32, s: u32, v: u32) -> R<()> {
        if a & (s - 1) != 0 && (self.feat.ver < 7 || self.feat.m) { return Err(Trap::Fault(a as u64, "misaligned store")); }
        m.store(a as u64, s, if s == 4 { v } else { v & ((1 << (s * 8)) - 1) } as u128, false, false)
    }
    fn nz(&mut self, v: u32) { self.n = v >> 31 != 0; self.z = v == 0; }
    fn addc(&mut self, x: u32, y: u32, c: bool, set: bool) -> u32 {
        let u = x as u64 + y as u64 + c as u64;
        let r = u as u32;
        if set { self.nz(r); self.c = u >> 32 != 0; self.v = (x ^ r) & (y ^ r) & 0x8000_0000 != 0; }
        r
    }
    fn cond(&self, c: u32) -> bool {
        let r = match c >> 1 { 0 => self.z, 1 => self.c, 2 => self.n, 3 => self.v, 4 => self.c && !self.z, 5 => self.n == self.v, 6 => self.n == self.v && !self.z, _ => true };
        if c & 1 != 0 && c < 14 { !r } else { r }
    }
    fn shift(&self, ty: u32, v: u32, n: u32, imm: bool) -> (u32, bool) {
        let c = self.c;
        match ty {
            0 => match n { 0 => (v, c), 1..=31 => (v << n, v >> (32 - n) & 1 != 0), 32 => (0, v & 1 != 0), _ => (0, false) },
            1 => match if imm && n == 0 { 32 } else { n } { 0 => (v, c), k @ 1..=31 => (v >> k, v >> (k - 1) & 1 != 0), 32 => (0, v >> 31 != 0), _ => (0, false) },
            2 => match if imm && n == 0 { 32 } else { n } { 0 => (v, c), k @ 1..=31 => ((v as i32 >> k) as u32, v >> (k - 1) & 1 != 0), _ => ((v as i32 >> 31) as u32, v >> 31 != 0) },
            _ => if imm && n == 0 { ((c as u32) << 31 | v >> 1, v & 1 != 0) } else if n == 0 { (v, c) } else { let r = v.rotate_right(n & 31); (r, r >> 31 != 0) },
        }
    }
    pub fn step(&mut self, m: &mut Mem) -> R<()> {
        let pc = self.pc;
        if self.feat.kuser != 0 && pc >= 0xffff_0f00 { return self.kuser(m); }
        if self.t {
            let (h, h2) = match m.fetch(pc, 4) { Some(x) if x.len() >= 2 => (u16::from_le_bytes([x[0], x[1]]) as u32, if x.len() >= 4 { u16::from_le_bytes([x[2], x[3]]) as u32 } else { 0 }), _ => return Err(Trap::Fault(pc, "jump outside the program")) };
            if h >> 11 >= 0x1d {
                self.npc = pc as u32 + 4;
                self.t32(m, h, h2)?;
            } else {
                self.npc = pc as u32 + 2;
                self.t16(m, h)?;
            }
        } else {
            let w = match m.fetch(pc, 4) { Some(x) if x.len() >= 4 && pc & 3 == 0 => u32::from_le_bytes([x[0], x[1], x[2], x[3]]), _ => return Err(Trap::Fault(pc, "jump outside the program")) };
            self.npc = pc as u32 + 4;
            if self.feat.m { return Err(self.ill("A32 code on an M-profile CPU")); }
            if w >> 28 == 15 { self.uncond(m, w)?; } else if self.cond(w >> 28) { self.arm(m, w)?; }
        }
        self.pc = self.npc as u64;
        Ok(())
    }
    /// Kernel-provided user helpers (Documentation/arch/arm/kernel_user_helpers.rst).
    fn kuser(&mut self, m: &mut Mem) -> R<()> {
        match self.pc as u32 {
            0xffff_0fa0 if self.feat.kuser >= 3 => m.fence(true, true, true, true)?,
            0xffff_0fc0 if self.feat.kuser >= 2 => {
                let (old, new, p) = (self.r[0], self.r[1], self.r[2]);
                if p & 3 != 0 { return Err(Trap::Fault(p as u64, "misaligned kuser_cmpxchg")); }
                m.fence(true, true, true, true)?;
                let o = m.rmw(p as u64, 4, true, true, &mut |o| if o == old as u128 { Some(new as u128) } else { None })?;
                m.fence(true, true, true, true)?;
                self.c = o == old as u128;
                self.r[0] = if self.c { 0 } else { (o as u32).wrapping_sub(old) };
                self.r[3] = 0xC0C0_C0C0;
                self.r[12] = 0xC0C0_C0C0;
            }
            0xffff_0f60 if self.feat.kuser >= 5 => {
                let rd = |m: &mut Mem, a: u32| -> R<u128> { Ok(m.load(a as u64, 4, LK::default())? | m.load(a as u64 + 4, 4, LK::default())? << 32) };
                let p = self.r[2];
                if p & 7 != 0 { return Err(Trap::Fault(p as u64, "misaligned kuser_cmpxchg64")); }
                let old = rd(m, self.r[0])?;
                let new = rd(m, self.r[1])?;
                m.fence(true, true, true, true)?;
                let o = m.rmw(p as u64, 8, true, true, &mut |o| if o == old { Some(new) } else { None })?;
                m.fence(true, true, true, true)?;
                self.c = o == old;
                self.r[0] = if self.c { 0 } else { 1 };
                self.r[3] = 0xC0C0_C0C0;
            }
            _ => return Err(Trap::Fault(self.pc, "call of a kernel user helper this kernel does not provide")),
        }
        self.n = false;
        self.z = false;
        let lr = self.r[14];
        self.t = lr & 1 != 0;
        self.pc = (lr & !1) as u64;
        Ok(())
    }
    fn uncond(&mut self, m: &mut Mem, w: u32) -> R<()> {
        match w {
            _ if w >> 25 == 0x7d => {
                // BLX immediate
                self.r[14] = self.npc;
                self.npc = (self.pc as u32).wrapping_add(8).wrapping_add(sx((w & 0xff_ffff) << 2, 26)).wrapping_add((w >> 24 & 1) << 1);
                self.t = true;
            }
            _ if w & 0xffff_ffc0 == 0xf57f_f040 => match w >> 4 & 15 {
                4 | 5 => { let st = w & 3 == 2; m.fence(!st, true, !st, true)? }
                6 => {}
                _ => return Err(self.unk(w, "barrier")),
            },
            0xf57f_f01f => m.clrex(),
            _ if w >> 24 & 0xf7 == 0xf5 => {} // PLD
            _ => return Err(self.unk(w, "unconditional")),
        }
        Ok(())
    }
    fn dp(&mut self, m: &Mem, op: u32, s: bool, rn: u32, rd: u32, y: u32, sc: bool) -> R<()> {
        let x = self.g(rn);
        let c = self.c;
        let lg = |me: &mut Self, v: u32| { if s { me.nz(v); me.c = sc; } v };
        let v = match op {
            0 | 8 => lg(self, x & y),
            1 | 9 => lg(self, x ^ y),
            2 | 10 => self.addc(x, !y, true, s),
            3 => self.addc(!x, y, true, s),
            4 | 11 => self.addc(x, y, false, s),
            5 => self.addc(x, y, c, s),
            6 => self.addc(x, !y, c, s),
            7 => self.addc(!x, y, c, s),
            12 => lg(self, x | y),
            13 => lg(self, y),
            14 => lg(self, x & !y),
            _ => lg(self, !y),
        };
        if !(8..12).contains(&op) { self.w(m, rd, v)?; }
        Ok(())
    }
    fn arm(&mut self, m: &mut Mem, w: u32) -> R<()> {
        let (rn, rd, rs, rm) = (b(w, 19, 16), b(w, 15, 12), b(w, 11, 8), w & 15);
        match b(w, 27, 25) {
            0 if w & 0x90 == 0x90 => {
                if w & 0x60 == 0 {
                    if w >> 24 & 1 == 0 { return self.mul(w, rn, rd, rs, rm); }
                    return self.sync(m, w, rn, rd, rm);
                }
                // extra loads and stores
                let (p, u, i, wb, l) = (w >> 24 & 1, w >> 23 & 1, w >> 22 & 1, w >> 21 & 1, w >> 20 & 1);
                let off = if i != 0 { rs << 4 | rm } else { self.g(rm) };
                let base = self.g(rn);
                let ea = if u != 0 { base.wrapping_add(off) } else { base.wrapping_sub(off) };
                let a = if p != 0 { ea } else { base };
                let op = b(w, 6, 5);
                let mut out: Vec<(u32, u32)> = Vec::new();
                match (op, l) {
                    (1, 0) => self.st(m, a, 2, self.g(rd))?,
                    (1, _) => out.push((rd, self.ld(m, a, 2, LK::default())?)),
                    (2, 1) => out.push((rd, sx(self.ld(m, a, 1, LK::default())?, 8))),
                    (3, 1) => out.push((rd, sx(self.ld(m, a, 2, LK::default())?, 16))),
                    (2, _) => {
                        if self.feat.ver < 5 { return Err(self.ill("LDRD before ARMv5TE")); }
                        if rd & 1 != 0 || a & 7 != 0 && self.feat.ver < 6 { return Err(Trap::Fault(a as u64, "misaligned LDRD")); }
                        out.push((rd, self.ld(m, a, 4, LK::default())?));
                        out.push((rd + 1, self.ld(m, a.wrapping_add(4), 4, LK::default())?));
                    }
                    _ => {
                        if self.feat.ver < 5 { return Err(self.ill("STRD before ARMv5TE")); }
                        if rd & 1 != 0 || a & 7 != 0 && self.feat.ver < 6 { return Err(Trap::Fault(a as u64, "misaligned STRD")); }
                        self.st(m, a, 4, self.g(rd))?;
                        self.st(m, a.wrapping_add(4), 4, self.g(rd + 1))?;
                    }
                }
                if p == 0 || wb != 0 { self.r[rn as usize] = ea; }
                for (r, v) in out { self.w(m, r, v)?; }
            }
            0 if w & 0x0190_0000 == 0x0100_0000 => self.misc(m, w)?,
            0 => {
                let ty = b(w, 6, 5);
                let (y, sc) = if w & 0x10 != 0 { let n = self.g(rs) & 255; self.shift(ty, self.g(rm), n, false) } else { self.shift(ty, self.g(rm), b(w, 11, 7), true) };
                self.dp(m, b(w, 24, 21), w >> 20 & 1 != 0, rn, rd, y, sc)?;
            }
            1 => {
                let op = b(w, 24, 20);
                match op {
                    0x10 | 0x14 => {
                        if self.feat.ver < 7 { return Err(self.ill("MOVW/MOVT before ARMv7")); }
                        let imm = rn << 12 | w & 0xfff;
                        self.r[rd as usize] = if op == 0x10 { imm } else { self.r[rd as usize] & 0xffff | imm << 16 };
                    }
                    0x12 | 0x16 => {
                        if rn == 0 { if w & 255 == 1 { m.pause(); } return Ok(()); } // hints
                        let imm = (w & 255).rotate_right(rs * 2);
                        self.msr(rn, imm)?;
                    }
                    _ => {
                        let y = (w & 255).rotate_right(rs * 2);
                        let sc = if rs == 0 { self.c } else { y >> 31 != 0 };
                        self.dp(m, op >> 1, op & 1 != 0, rn, rd, y, sc)?;
                    }
                }
            }
            2 | 3 => {
                if w >> 25 & 1 != 0 && w & 0x10 != 0 { return self.media(w); }
                let (p, u, by, wb, l) = (w >> 24 & 1, w >> 23 & 1, w >> 22 & 1, w >> 21 & 1, w >> 20 & 1);
                let off = if w >> 25 & 1 != 0 { self.shift(b(w, 6, 5), self.g(rm), b(w, 11, 7), true).0 } else { w & 0xfff };
                let base = self.g(rn);
                let ea = if u != 0 { base.wrapping_add(off) } else { base.wrapping_sub(off) };
                let a = if p != 0 { ea } else { base };
                let sz = if by != 0 { 1 } else { 4 };
                if l != 0 {
                    let v = self.ld(m, a, sz, LK::default())?;
                    if p == 0 || wb != 0 { self.r[rn as usize] = ea; }
                    if rd == 15 { self.lpc(m, v)?; } else { self.r[rd as usize] = v; }
                } else {
                    self.st(m, a, sz, self.g(rd))?;
                    if p == 0 || wb != 0 { self.r[rn as usize] = ea; }
                }
            }
            4 => {
                let (p, u, wb, l) = (w >> 24 & 1, w >> 23 & 1, w >> 21 & 1, w >> 20 & 1);
                if w >> 22 & 1 != 0 { return Err(self.unk(w, "ldm/stm user registers")); }
                let n = (w & 0xffff).count_ones();
                let base = self.g(rn);
                let mut a = if u != 0 { base.wrapping_add(4 * p) } else { base.wrapping_sub(4 * n).wrapping_add(4 * (1 - p)) };
                let end = if u != 0 { base.wrapping_add(4 * n) } else { base.wrapping_sub(4 * n) };
                self.multi(m, w & 0xffff, &mut a, l != 0, if wb != 0 { Some((rn, end)) } else { None })?;
            }
            5 => {
                if w >> 24 & 1 != 0 { self.r[14] = self.npc; }
                self.npc = (self.pc as u32).wrapping_add(8).wrapping_add(sx((w & 0xff_ffff) << 2, 26));
            }
            _ => {
                // CP15 barriers of ARMv6
                if w & 0x0fff_0fff == 0x0e07_0fba { m.fence(true, true, true, true)?; return Ok(()); }
                return Err(self.unk(w, "coprocessor"));
            }
        }
        Ok(())
    }
    fn multi(&mut self, m: &mut Mem, list: u32, a: &mut u32, load: bool, wb: Option<(u32, u32)>) -> R<()> {
        let mut vals = [0u32; 16];
        for i in 0..16 {
            if list >> i & 1 == 0 { continue; }
            if load { vals[i] = self.ld(m, *a, 4, LK::default())?; } else { self.st(m, *a, 4, self.g(i as u32))?; }
            *a = a.wrapping_add(4);
        }
        if let Some((rn, end)) = wb { self.r[rn as usize] = end; }
        if load {
            for i in 0..15 { if list >> i & 1 != 0 { self.r[i] = vals[i]; } }
            if list >> 15 & 1 != 0 { self.lpc(m, vals[15])?; }
        }
        Ok(())
    }
    fn msr(&mut self, mask: u32, v: u32) -> R<()> {
        if mask & 8 != 0 { self.n = v >> 31 != 0; self.z = v >> 30 & 1 != 0; self.c = v >> 29 & 1 != 0; self.v = v >> 28 & 1 != 0; }
        if mask & 1 != 0 {
            if v & 0x20 != self.t as u32 * 0x20 { return Err(self.ill("MSR changes the T bit")); }
            self.ctl = v & 0xdf;
        }
        Ok(())
    }
    fn misc(&mut self, m: &mut Mem, w: u32) -> R<()> {
        let (op, rn, rd, rs, rm) = (b(w, 22, 21), b(w, 19, 16), b(w, 15, 12), b(w, 11, 8), w & 15);
        if w & 0x80 != 0 {
            let h = |v: u32, t: u32| if t != 0 { v as i32 >> 16 } else { v as i16 as i32 };
            let (x, y) = (self.g(rm), self.g(rs));
            match op {
                0 => self.r[rn as usize] = h(x, w >> 5 & 1).wrapping_mul(h(y, w >> 6 & 1)).wrapping_add(self.g(rd) as i32) as u32,
                1 => { let p = ((x as i32 as i64 * h(y, w >> 6 & 1) as i64) >> 16) as i32; self.r[rn as usize] = if w >> 5 & 1 != 0 { p } else { p.wrapping_add(self.g(rd) as i32) } as u32; }
                3 => self.r[rn as usize] = h(x, w >> 5 & 1).wrapping_mul(h(y, w >> 6 & 1)) as u32,
                _ => {
                    let p = (h(x, w >> 5 & 1) as i64 * h(y, w >> 6 & 1) as i64).wrapping_add(((self.g(rn) as u64) << 32 | self.g(rd) as u64) as i64);
                    self.r[rd as usize] = p as u32;
                    self.r[rn as usize] = (p >> 32) as u32;
                }
            }
            return Ok(());
        }
        match (b(w, 6, 4), op) {
            (0, 0) => self.r[rd as usize] = (self.n as u32) << 31 | (self.z as u32) << 30 | (self.c as u32) << 29 | (self.v as u32) << 28 | self.ctl | (self.t as u32) << 5,
            (0, 1) => { let v = self.g(rm); self.msr(rn, v)?; }
            (1, 1) => { let v = self.g(rm); self.bx(m, v)?; }
            (1, 3) => { if self.feat.ver < 5 { return Err(self.ill("CLZ before ARMv5")); } self.r[rd as usize] = self.g(rm).leading_zeros(); }
            (3, 1) => {
                if self.feat.ver < 5 { return Err(self.ill("BLX before ARMv5")); }
                let v = self.g(rm);
                self.r[14] = self.npc;
                self.bx(m, v)?;
            }
            (5, _) => {
                // QADD, QSUB, QDADD, QDSUB
                if self.feat.ver < 5 { return Err(self.ill("QADD before ARMv5TE")); }
                let (x, y) = (self.g(rm) as i32, self.g(rn) as i32);
                let y = if op & 2 != 0 { y.saturating_add(y) } else { y };
                self.r[rd as usize] = if op & 1 == 0 { x.saturating_add(y) } else { x.saturating_sub(y) } as u32;
            }
            _ => return Err(self.unk(w, "misc")),
        }
        Ok(())
    }
    fn mul(&mut self, w: u32, rdh: u32, rdl: u32, rs: u32, rm: u32) -> R<()> {
        let (op, s) = (b(w, 23, 21), w >> 20 & 1 != 0);
        let (x, y) = (self.g(rm), self.g(rs));
        match op {
            0 | 1 => { let v = x.wrapping_mul(y).wrapping_add(if op == 1 { self.g(rdl) } else { 0 }); self.r[rdh as usize] = v; if s { self.nz(v); } }
            3 => self.r[rdh as usize] = self.g(rdl).wrapping_sub(x.wrapping_mul(y)),
            _ => {
                let acc = (self.g(rdh) as u64) << 32 | self.g(rdl) as u64;
                let v = match op {
                    2 => x as u64 * y as u64 + self.g(rdl) as u64 + self.g(rdh) as u64,
                    4 => x as u64 * y as u64,
                    5 => (x as u64 * y as u64).wrapping_add(acc),
                    6 => (x as i32 as i64 * y as i32 as i64) as u64,
                    _ => ((x as i32 as i64 * y as i32 as i64) as u64).wrapping_add(acc),
                };
                self.r[rdl as usize] = v as u32;
                self.r[rdh as usize] = (v >> 32) as u32;
                if s { self.n = v >> 63 != 0; self.z = v == 0; }
            }
        }
        Ok(())
    }
    fn ldex(&mut self, m: &mut Mem, a: u32, sz: u32, acq: bool, ex: bool) -> R<u64> {
        if a & (sz - 1) != 0 { return Err(Trap::Fault(a as u64, "misaligned exclusive or acquire load")); }
        Ok(m.load(a as u64, sz, LK { acq: if acq { 2 } else { 0 }, ex, ..LK::default() })? as u64)
    }
    fn stex(&mut self, m: &mut Mem, a: u32, sz: u32, v: u64, rel: bool) -> R<u32> {
        if a & (sz - 1) != 0 { return Err(Trap::Fault(a as u64, "misaligned exclusive store")); }
        let v = if sz == 8 { v } else { v & ((1 << (sz * 8)) - 1) };
        Ok(!m.sc(a as u64, sz, v as u128, rel)? as u32)
    }
    fn sync(&mut self, m: &mut Mem, w: u32, rn: u32, rd: u32, rm: u32) -> R<()> {
        let a = self.g(rn);
        let op = b(w, 23, 20);
        if op & 8 == 0 {
            // SWP, SWPB
            let sz = if op & 4 != 0 { 1 } else { 4 };
            if a & (sz - 1) != 0 { return Err(Trap::Fault(a as u64, "misaligned SWP")); }
            let v = self.g(rm) as u128 & if sz == 1 { 255 } else { 0xffff_ffff };
            let o = m.rmw(a as u64, sz, false, false, &mut |_| Some(v))?;
            self.r[rd as usize] = o as u32;
            return Ok(());
        }
        if self.feat.ver < 6 { return Err(self.ill("exclusive access before ARMv6")); }
        if b(w, 11, 8) != 15 { return Err(self.unk(w, "sync")); }
        let sz = [4u32, 8, 1, 2][b(w, 22, 21) as usize];
        if op & 1 != 0 {
            let v = self.ldex(m, a, sz, false, true)?;
            self.r[rd as usize] = v as u32;
            if sz == 8 { self.r[rd as usize + 1] = (v >> 32) as u32; }
        } else {
            let v = self.g(rm) as u64 | if sz == 8 { (self.g(rm + 1) as u64) << 32 } else { 0 };
            self.r[rd as usize] = self.stex(m, a, sz, v, false)?;
        }
        Ok(())
    }
    fn media(&mut self, w: u32) -> R<()> {
        if self.feat.ver < 6 { if w & 0x0ff0_00f0 == 0x07f0_00f0 { return Err(Trap::Abort(self.pc, "udf")); } return Err(self.ill("media instruction before ARMv6")); }
        let (op1, op2) = (b(w, 24, 20), b(w, 7, 5));
        let (rn, rd, rs, rm) = (b(w, 19, 16), b(w, 15, 12), b(w, 11, 8), w & 15);
        let (x, y) = (self.g(rn), self.g(rm));
        match (op1, op2) {
            (6, 3) | (6, 7) | (6, 0) | (6, 4) => {
                let n = if op2 & 4 != 0 { 8 } else { 16 };
                let mut v = 0;
                let mk = (1u32 << n) - 1;
                for i in (0..32).step_by(n) { let (p, q) = (x >> i & mk, y >> i & mk); v |= (if op2 & 3 == 3 { p.saturating_sub(q) } else { (p + q).min(mk) }) << i; }
                self.r[rd as usize] = v;
            }
            (2, 3) | (2, 7) | (2, 0) | (2, 4) => {
                let n = if op2 & 4 != 0 { 8 } else { 16 };
                let (mut v, mk) = (0, (1u32 << n) - 1);
                let lim = 1i32 << (n - 1);
                for i in (0..32).step_by(n as usize) {
                    let (p, q) = (sx(x >> i & mk, n) as i32, sx(y >> i & mk, n) as i32);
                    v |= ((if op2 & 3 == 3 { p - q } else { p + q }).clamp(-lim, lim - 1) as u32 & mk) << i;
                }
                self.r[rd as usize] = v;
            }
            (8, _) if op2 & 1 == 0 => {
                let n = b(w, 11, 7);
                self.r[rd as usize] = if w & 0x40 != 0 { let s = self.shift(2, y, n, true).0; x & 0xffff_0000 | s & 0xffff } else { x & 0xffff | y << n & 0xffff_0000 };
            }
            (0xa | 0xb | 0xe | 0xf, 3) => {
                let r = y.rotate_right(b(w, 11, 10) * 8);
                let v = match op1 { 0xa => sx(r & 255, 8), 0xb => sx(r & 0xffff, 16), 0xe => r & 255, _ => r & 0xffff };
                self.r[rd as usize] = if rn == 15 { v } else { x.wrapping_add(v) };
            }
            (0xb, 1) => self.r[rd as usize] = y.swap_bytes(),
            (0xb, 5) => self.r[rd as usize] = (y & 0xff00_ff00) >> 8 | (y & 0xff_00ff) << 8,
            (0xf, 1) => self.r[rd as usize] = y.reverse_bits(),
            (0x15, 0 | 1) => {
                let p = self.g(rs) as i32 as i64 * y as i32 as i64 + if rd != 15 { (self.g(rd) as i64) << 32 } else { 0 } + if op2 == 1 { 0x8000_0000 } else { 0 };
                self.r[rn as usize] = (p >> 32) as u32;
            }
            (0x1c | 0x1d, _) if op2 & 3 == 0 => {
                let (lsb, msb) = (b(w, 11, 7), b(w, 20, 16));
                if msb < lsb { return Err(self.unk(w, "bfi")); }
                let mk = (((1u64 << (msb - lsb + 1)) - 1) as u32) << lsb;
                let v = if rm == 15 { 0 } else { y << lsb };
                self.r[rd as usize] = self.r[rd as usize] & !mk | v & mk;
            }
            (0x1a | 0x1b | 0x1e | 0x1f, _) if op2 & 3 == 2 => {
                let (lsb, n) = (b(w, 11, 7), b(w, 20, 16) + 1);
                let v = ((y as u64 >> lsb) & ((1u64 << n) - 1)) as u32;
                self.r[rd as usize] = if op1 < 0x1e { sx(v, n) } else { v };
            }
            (0x1f, 7) => return Err(Trap::Abort(self.pc, "udf")),
            _ => return Err(self.unk(w, "media")),
        }
        Ok(())
    }
    fn t16(&mut self, m: &mut Mem, w: u32) -> R<()> {
        let (d, n, r6) = (w & 7, w >> 3 & 7, w >> 6 & 7);
        match w >> 11 {
            0 | 1 | 2 => {
                let (v, c) = if w >> 11 == 0 && b(w, 10, 6) == 0 { (self.g(n), self.c) } else { self.shift(w >> 11, self.g(n), b(w, 10, 6), true) };
                self.r[d as usize] = v;
                self.nz(v);
                self.c = c;
            }
            3 => {
                let y = if w >> 10 & 1 != 0 { r6 } else { self.g(r6) };
                let x = self.g(n);
                self.r[d as usize] = if w >> 9 & 1 != 0 { self.addc(x, !y, true, true) } else { self.addc(x, y, false, true) };
            }
            4..=7 => {
                let (i, rd) = (w & 255, b(w, 10, 8));
                let x = self.g(rd);
                match w >> 11 {
                    4 => { self.r[rd as usize] = i; self.nz(i); }
                    5 => { self.addc(x, !i, true, true); }
                    6 => self.r[rd as usize] = self.addc(x, i, false, true),
                    _ => self.r[rd as usize] = self.addc(x, !i, true, true),
                }
            }
            8 if w >> 10 & 1 == 0 => {
                let (x, y) = (self.g(d), self.g(n));
                let op = b(w, 9, 6);
                let c = self.c;
                let v = match op {
                    0 | 8 => x & y,
                    1 => x ^ y,
                    2 | 3 | 4 | 7 => { let (v, c) = self.shift(match op { 2 => 0, 3 => 1, 4 => 2, _ => 3 }, x, y & 255, false); self.c = c; v }
                    5 => self.addc(x, y, c, true),
                    6 => self.addc(x, !y, c, true),
                    9 => self.addc(0, !y, true, true),
                    10 => self.addc(x, !y, true, true),
                    11 => self.addc(x, y, false, true),
                    12 => x | y,
                    13 => x.wrapping_mul(y),
                    14 => x & !y,
                    _ => !y,
                };
                if !matches!(op, 5 | 6 | 9 | 10 | 11) { self.nz(v); }
                if !matches!(op, 8 | 10 | 11) { self.r[d as usize] = v; }
            }
            8 => {
                let (dn, rm) = (d | w >> 4 & 8, b(w, 6, 3));
                let y = self.g(rm);
                match b(w, 9, 8) {
                    0 => { let v = self.g(dn).wrapping_add(y); self.w(m, dn, v)?; }
                    1 => { let x = self.g(dn); self.addc(x, !y, true, true); }
                    2 => self.w(m, dn, y)?,
                    _ => { if w & 0x80 != 0 { self.r[14] = self.npc | 1; } self.bx(m, y)?; }
                }
            }
            9 => { let a = (self.g(15) & !3).wrapping_add((w & 255) << 2); self.r[b(w, 10, 8) as usize] = self.ld(m, a, 4, LK::default())?; }
            10 | 11 => {
                let a = self.g(n).wrapping_add(self.g(r6));
                match b(w, 11, 9) {
                    0 => self.st(m, a, 4, self.g(d))?,
                    1 => self.st(m, a, 2, self.g(d))?,
                    2 => self.st(m, a, 1, self.g(d))?,
                    3 => self.r[d as usize] = sx(self.ld(m, a, 1, LK::default())?, 8),
                    4 => self.r[d as usize] = self.ld(m, a, 4, LK::default())?,
                    5 => self.r[d as usize] = self.ld(m, a, 2, LK::default())?,
                    6 => self.r[d as usize] = self.ld(m, a, 1, LK::default())?,
                    _ => self.r[d as usize] = sx(self.ld(m, a, 2, LK::default())?, 16),
                }
            }
            12..=17 => {
                let i = b(w, 10, 6);
                let sz = [4, 4, 1, 1, 2, 2][(w >> 11) as usize - 12];
                let a = self.g(n).wrapping_add(i * sz);
                if w >> 11 & 1 == 0 { self.st(m, a, sz, self.g(d))?; } else { self.r[d as usize] = self.ld(m, a, sz, LK::default())?; }
            }
            18 | 19 => {
                let (a, rd) = (self.g(13).wrapping_add((w & 255) << 2), b(w, 10, 8));
                if w >> 11 & 1 == 0 { self.st(m, a, 4, self.g(rd))?; } else { self.r[rd as usize] = self.ld(m, a, 4, LK::default())?; }
            }
            20 => self.r[b(w, 10, 8) as usize] = (self.g(15) & !3).wrapping_add((w & 255) << 2),
            21 => self.r[b(w, 10, 8) as usize] = self.g(13).wrapping_add((w & 255) << 2),
            22 | 23 => match b(w, 11, 8) {
                0 => { let o = (w & 127) << 2; self.r[13] = if w & 0x80 != 0 { self.r[13].wrapping_sub(o) } else { self.r[13].wrapping_add(o) }; }
                2 => { let v = self.g(n); self.r[d as usize] = match b(w, 7, 6) { 0 => sx(v & 0xffff, 16), 1 => sx(v & 255, 8), 2 => v & 0xffff, _ => v & 255 }; }
                10 => { let v = self.g(n); self.r[d as usize] = match b(w, 7, 6) { 0 => v.swap_bytes(), 1 => (v & 0xff00_ff00) >> 8 | (v & 0xff_00ff) << 8, 3 => sx((v as u16).swap_bytes() as u32, 16), _ => return Err(self.unk(w, "rev")) }; }
                1 | 3 | 9 | 11 => {
                    if self.feat.ver < 7 { return Err(self.ill("CBZ on ARMv6-M")); }
                    let nz = w >> 11 & 1 != 0;
                    if (self.g(d) != 0) == nz { self.npc = (self.pc as u32).wrapping_add(4).wrapping_add((w >> 9 & 1) << 6 | b(w, 7, 3) << 1); }
                }
                4 | 5 => {
                    let list = w & 255 | (w >> 8 & 1) << 14;
                    let mut a = self.r[13].wrapping_sub(4 * list.count_ones());
                    let e = a;
                    self.multi(m, list, &mut a, false, Some((13, e)))?;
                }
                12 | 13 => {
                    let list = w & 255 | (w >> 8 & 1) << 15;
                    let mut a = self.r[13];
                    let e = a.wrapping_add(4 * list.count_ones());
                    self.multi(m, list, &mut a, true, Some((13, e)))?;
                }
                6 if w & 0xffe8 == 0xb660 => {
                    let dis = w >> 4 & 1;
                    if w & 2 != 0 {
                        if self.feat.m { self.ctl = self.ctl & !1 | dis; } else { self.ctl = self.ctl & !0x80 | dis << 7; }
                    }
                    if w & 1 != 0 && !self.feat.m { self.ctl = self.ctl & !0x40 | dis << 6; }
                }
                15 if w & 15 == 0 => { if w & 0xff == 0x10 { m.pause(); } }
                14 => return Err(Trap::Abort(self.pc, "bkpt")),
                _ => return Err(self.unk(w, "misc")),
            },
            24 | 25 => {
                let (rn, list) = (b(w, 10, 8), w & 255);
                let mut a = self.g(rn);
                let e = a.wrapping_add(4 * list.count_ones());
                let load = w >> 11 & 1 != 0;
                let wb = if load && list >> rn & 1 != 0 { None } else { Some((rn, e)) };
                self.multi(m, list, &mut a, load, wb)?;
            }
            26 | 27 => {
                let c = b(w, 11, 8);
                if c == 14 { return Err(Trap::Abort(self.pc, "udf")); }
                if c == 15 { return Err(self.unk(w, "svc")); }
                if self.cond(c) { self.npc = (self.pc as u32).wrapping_add(4).wrapping_add(sx((w & 255) << 1, 9)); }
            }
            28 => self.npc = (self.pc as u32).wrapping_add(4).wrapping_add(sx((w & 0x7ff) << 1, 12)),
            _ => return Err(self.unk(w, "t16")),
        }
        Ok(())
    }
    fn t32(&mut self, m: &mut Mem, h: u32, h2: u32) -> R<()> {
        let w = h << 16 | h2;
        if h >> 11 == 0x1e && h2 >> 15 != 0 {
            if h2 >> 14 & 1 != 0 || h2 >> 12 & 1 != 0 {
                // BL (also the ARMv4T pair form: J1 = J2 = 1), B.W
                let s = h >> 10 & 1;
                let (j1, j2) = (h2 >> 13 & 1, h2 >> 11 & 1);
                let (i1, i2) = (1 - (j1 ^ s), 1 - (j2 ^ s));
                let off = sx(s << 24 | i1 << 23 | i2 << 22 | (h & 0x3ff) << 12 | (h2 & 0x7ff) << 1, 25);
                let t = (self.pc as u32).wrapping_add(4).wrapping_add(off);
                if h2 >> 14 & 1 != 0 {
                    self.r[14] = self.npc | 1;
                    if h2 >> 12 & 1 == 0 { if self.feat.m { return Err(self.ill("BLX immediate on M-profile")); } self.t = false; self.npc = t & !3; return Ok(()); }
                }
                self.npc = t;
                return Ok(());
            }
            if h2 >> 14 & 1 == 0 && h2 >> 12 & 1 == 0 {
                if h & 0xfff0 == 0xf3e0 && self.feat.m || h == 0xf3ef {
                    let v = match h2 & 255 { 16 => self.ctl & 1, 20 => 0, _ => return Err(self.unk(w, "mrs")) };
                    self.r[b(h2, 11, 8) as usize] = v;
                    return Ok(());
                }
                if h & 0xfff0 == 0xf380 && self.feat.m {
                    let v = self.g(h & 15);
                    match h2 & 255 { 16 => self.ctl = v & 1, _ => return Err(self.unk(w, "msr")) }
                    return Ok(());
                }
                if h == 0xf3bf {
                    return match h2 >> 4 & 15 { 4 | 5 => { let st = h2 & 3 == 2; m.fence(!st, true, !st, true) } 6 => Ok(()), 2 => { m.clrex(); Ok(()) } _ => Err(self.unk(w, "barrier")) };
                }
                if h & 0xfff0 == 0xf7f0 && h2 & 0xf000 == 0xa000 { return Err(Trap::Abort(self.pc, "udf.w")); }
            }
            return Err(self.unk(w, "branch or system"));
        }
        if self.feat.ver < 7 { return Err(self.ill("Thumb-2 instruction on ARMv6-M")); }
        let (rn, rt) = (h & 15, b(h2, 15, 12));
        match h & 0xfbf0 {
            0xf240 | 0xf2c0 => {
                let rd = b(h2, 11, 8) as usize;
                let imm = rn << 12 | (h >> 10 & 1) << 11 | b(h2, 14, 12) << 8 | h2 & 255;
                self.r[rd] = if h & 0x80 == 0 { imm } else { self.r[rd] & 0xffff | imm << 16 };
                return Ok(());
            }
            _ => {}
        }
        match h & 0xfff0 {
            0xe840 => { let a = self.g(rn).wrapping_add((h2 & 255) << 2); let v = self.g(rt) as u64; self.r[b(h2, 11, 8) as usize] = self.stex(m, a, 4, v, false)?; }
            0xe850 => { let a = self.g(rn).wrapping_add((h2 & 255) << 2); self.r[rt as usize] = self.ldex(m, a, 4, false, true)? as u32; }
            0xe8c0 => {
                let a = self.g(rn);
                let op = b(h2, 7, 4);
                let sz = [1, 2, 4, 8][(op & 3) as usize];
                let v = self.g(rt) as u64;
                match op {
                    4 | 5 => self.r[(h2 & 15) as usize] = self.stex(m, a, sz, v, false)?,
                    8..=10 => {
                        if a & (sz - 1) != 0 { return Err(Trap::Fault(a as u64, "misaligned release store")); }
                        m.store(a as u64, sz, v as u128 & ((1 << (sz * 8)) - 1), true, false)?
                    }
                    12..=14 => self.r[(h2 & 15) as usize] = self.stex(m, a, sz, v, true)?,
                    _ => return Err(self.unk(w, "store exclusive")),
                }
            }
            0xe8d0 => {
                let a = self.g(rn);
                let op = b(h2, 7, 4);
                let sz = [1, 2, 4, 8][(op & 3) as usize];
                self.r[rt as usize] = match op {
                    4 | 5 => self.ldex(m, a, sz, false, true)?,
                    8..=10 => self.ldex(m, a, sz, true, false)?,
                    12..=14 => self.ldex(m, a, sz, true, true)?,
                    _ => return Err(self.unk(w, "load exclusive")),
                } as u32;
            }
            0xfb90 | 0xfbb0 => {
                let (x, y) = (self.g(rn), self.g(h2 & 15));
                self.r[b(h2, 11, 8) as usize] = if y == 0 { 0 } else if h & 0x20 == 0 { (x as i32).wrapping_div(y as i32) as u32 } else { x / y };
            }
            _ => return Err(self.unk(w, "t32")),
        }
        Ok(())
    }
    // ------------------------------------------------------------ calls
    fn mark(i: usize) -> u32 { 0x5A5A_0000 | i as u32 * 0x0101 }
    pub fn start_call(&mut self, _m: &mut Mem, f: u64, args: &[u64], sp: u64, ret: u64) {
        for i in 0..15 { self.r[i] = Self::mark(i); }
        for (i, a) in args.iter().enumerate() { self.r[i] = *a as u32; }
        self.r[13] = sp as u32 & !7;
        self.t = f & 1 != 0;
        self.r[14] = ret as u32 | self.t as u32;
        self.pc = f & !1;
    }
    pub fn check_saved(&self, sp0: u64, _n: usize) -> Option<String> {
        for i in 4..12 { if self.r[i] != Self::mark(i) { return Some(format!("callee-saved register r{i} changed from {:#x} to {:#x}", Self::mark(i), self.r[i])); } }
        if self.r[13] != sp0 as u32 & !7 { return Some(format!("stack pointer is {:#x} after return, expected {:#x}", self.r[13], sp0 & !7)); }
        None
    }
    pub fn arg(&self, _m: &Mem, i: usize) -> u64 { self.r[i] as u64 }
    pub fn do_return(&mut self, _m: &Mem, v: u64) {
        let lr = self.r[14];
        if !self.feat.m { self.t = lr & 1 != 0; }
        self.pc = (lr & !1) as u64;
        for i in [1, 2, 3, 12] { self.r[i] = 0xC0C0_C0C0; }
        self.r[0] = v as u32;
    }
    pub fn sp(&self) -> u64 { self.r[13] as u64 }
    fn masks(&self) -> u32 { if self.feat.m { 1 } else if self.feat.fiq { 0xc0 } else { 0x80 } }
    /// Some interrupt whose handler may use atomics can arrive.
    pub fn irq_on(&self) -> bool { self.ctl & self.masks() != self.masks() }
    pub fn set_irq(&mut self, on: bool) { if on { self.ctl &= !self.masks() } else { self.ctl |= self.masks() } }
    pub fn status(&self) -> u64 { self.ctl as u64 }
}
