//! AArch64 instruction emulator: the A64 integer, FP/AdvSIMD and atomic instructions compilers
//! and the crate's assembly use. Atomic extensions are gated by the simulated CPU's features.
use crate::ops::{is_nan, mask_bits, qnan, soft_add, Ty};
use crate::mem::{Mem, Trap, LK};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct A64Feat {
    pub lse: bool,
    pub lse2: bool,
    pub rcpc: bool,
    pub rcpc2: bool,
    pub rcpc3: bool,
    pub lse128: bool,
    pub lsfe: bool,
    /// What the OS reports: 0 everything, 1 nothing, 2 no AT_HWCAP2, 3 no AT_HWCAP (or, on systems without an auxiliary
    /// vector, the part of its interface that came last, or first), 4 LSE although a core lacks it (Android on Exynos 9810).
    pub report: u8,
}
/// The value of a pair access whose lower-addressed element is `a`.
fn cat2(m: &Mem, a: u64, b: u64, bits: u32) -> u128 {
    let k = (1u128 << bits) - 1;
    let (lo, hi) = if m.be { (b, a) } else { (a, b) };
    lo as u128 & k | (hi as u128 & k) << bits
}
fn split2(m: &Mem, v: u128, bits: u32) -> (u64, u64) {
    let k = (1u128 << bits) - 1;
    let (lo, hi) = ((v & k) as u64, (v >> bits & k) as u64);
    if m.be { (hi, lo) } else { (lo, hi) }
}

/// LDFADD (0), LDFMAXNM (6) and LDFMINNM (7): the stored value.
fn fp_amo(t: Ty, op: u32, a: u128, b: u128) -> u128 {
    let (k, q) = (t.size(8) * 8 - 1, 1u128 << (t.frac() - 1));
    let sn = |v: u128| is_nan(t, v) && v & q == 0;
    if op != 0 && is_nan(t, a) && !sn(a) && !is_nan(t, b) { return b; }
    if op != 0 && is_nan(t, b) && !sn(b) && !is_nan(t, a) { return a; }
    for v in [a, b] { if sn(v) { return v | q; } }
    for v in [a, b] { if is_nan(t, v) { return v; } }
    if op == 0 { return soft_add(t, a, b).unwrap_or(qnan(t)); }
    let ord = |v: u128| if v >> k & 1 != 0 { -1 - ((v & mask_bits(k)) as i128) } else { v as i128 };
    if (ord(a) > ord(b)) == (op == 6) { a } else { b }
}
fn f16_to_f32(v: u32) -> u32 {
    let (s, e, f) = ((v & 0x8000) << 16, v >> 10 & 31, v & 0x3ff);
    match e {
        0 => s | (f as f32 / 16_777_216.0).to_bits(),
        31 => s | 0x7f80_0000 | f << 13 | if f != 0 { 0x40_0000 } else { 0 },
        _ => s | (e + 112) << 23 | f << 13,
    }
}
fn f32_to_f16(v: u32) -> u32 {
    let (s, e, f) = (v >> 16 & 0x8000, (v >> 23 & 255) as i32 - 112, v & 0x7f_ffff);
    if e == 143 { return s | 0x7c00 | if f != 0 { 0x200 | f >> 13 } else { 0 }; }
    // significand with 13 extra bits; subnormal results shift out more
    let (m, sh) = if e > 0 { (f | (e as u32 - 1) << 23, 13) } else if e < -11 { (0, 13) } else { (f | 1 << 23, (14 - e) as u32) };
    let m = if e > 0 { m + (1 << 23) } else { m };
    if e > 30 { return s | 0x7c00; }
    let (x, r, h) = (m >> sh, m & ((1 << sh) - 1), 1u32 << (sh - 1));
    s | (x + (r > h || r == h && x & 1 != 0) as u32)
}

impl A64Feat {
    pub fn full() -> A64Feat { A64Feat { lse: true, lse2: true, rcpc: true, rcpc2: true, rcpc3: true, lse128: true, lsfe: false, report: 0 } }
    pub fn bits(&self) -> u64 { self.lse as u64 | (self.lse2 as u64) << 1 | (self.rcpc as u64) << 2 | (self.rcpc2 as u64) << 3 | (self.rcpc3 as u64) << 4 | (self.lse128 as u64) << 5 | (self.lsfe as u64) << 6 | (self.report as u64) << 8 }
    pub fn from_bits(b: u64) -> A64Feat { A64Feat { lse: b & 1 != 0, lse2: b & 2 != 0, rcpc: b & 4 != 0, rcpc2: b & 8 != 0, rcpc3: b & 16 != 0, lse128: b & 32 != 0, lsfe: b & 64 != 0, report: (b >> 8) as u8 } }
    /// Linux getauxval
    pub fn auxv(&self, key: u64) -> u64 {
        match key {
            16 if self.report & 1 == 0 => 0x3 | ((self.lse || self.report == 4) as u64) << 8 | 1 << 11 | (self.rcpc as u64) << 15 | (self.lse2 as u64) << 25 | (self.rcpc2 as u64) << 26,
            26 if self.report == 0 || self.report == 3 => (self.rcpc3 as u64) << 46 | (self.lse128 as u64) << 47,
            6 => 4096,
            _ => 0,
        }
    }
    /// ID_AA64ISAR0_EL1, ID_AA64ISAR1_EL1 and ID_AA64MMFR2_EL1 as an OS shows them: with unrelated fields set as well.
    pub fn idreg(&self, r: u32) -> u64 {
        match r {
            0 => 0x0111_0001_0001_1120 & !(0xf << 20) | if self.lse128 { 3 } else if self.lse { 2 } else { 0u64 } << 20,
            1 => 0x0011_1111_0011_1012 & !(0xf << 20) | if self.rcpc3 { 3 } else if self.rcpc2 { 2 } else { self.rcpc as u64 } << 20,
            _ => 0x1221_0110_0010_1122 & !(0xf << 32) | (self.lse2 as u64) << 32,
        }
    }
}
#[derive(Clone)]
pub struct A64 {
    pub x: [u64; 31],
    pub sp: u64,
    pub pc: u64,
    npc: u64,
    pub v: [u128; 32],
    n: bool,
    z: bool,
    c: bool,
    vf: bool,
    pub feat: A64Feat,
}
type R<T> = Result<T, Trap>;
#[inline]
fn sx(v: u64, b: u32) -> u64 { ((v << (64 - b)) as i64 >> (64 - b)) as u64 }
#[inline]
fn mk(sf: bool) -> u64 { if sf { !0 } else { 0xffff_ffff } }
fn szmask(sz: u32) -> u64 { if sz >= 8 { !0 } else { (1 << (sz * 8)) - 1 } }
fn bitmasks(n: u32, imms: u32, immr: u32, imm: bool) -> Option<(u64, u64)> {
    let t = n << 6 | (!imms & 63);
    if t == 0 { return None; }
    let len = 31 - t.leading_zeros();
    if len < 1 { return None; }
    let lv = (1u32 << len) - 1;
    if imm && imms & lv == lv { return None; }
    let (s, r) = (imms & lv, immr & lv);
    let d = s.wrapping_sub(r) & lv;
    let es = 1u32 << len;
    let ones = |k: u32| if k >= 64 { !0u64 } else { (1 << k) - 1 };
    let (we, te) = (ones(s + 1), ones(d + 1));
    let ror = if r == 0 { we } else { (we >> r | we << (es - r)) & ones(es) };
    let (mut w, mut tm) = (0u64, 0u64);
    let mut i = 0;
    while i < 64 { w |= ror << i; tm |= te << i; i += es; }
    Some((w, tm))
}
impl A64 {
    pub fn new(feat: A64Feat) -> A64 { A64 { x: [0; 31], sp: 0, pc: 0, npc: 0, v: [0; 32], n: false, z: false, c: false, vf: false, feat } }
    #[inline]
    fn r(&self, i: u32) -> u64 { if i == 31 { 0 } else { self.x[i as usize] } }
    #[inline]
    fn rs(&self, i: u32) -> u64 { if i == 31 { self.sp } else { self.x[i as usize] } }
    #[inline]
    fn w(&mut self, i: u32, v: u64) { if i != 31 { self.x[i as usize] = v; } }
    #[inline]
    fn ws(&mut self, i: u32, v: u64) { if i == 31 { self.sp = v; } else { self.x[i as usize] = v; } }
    fn unk(&self, w: u32, s: &str) -> Trap { Trap::Unknown(self.pc, format!("{w:08x} ({s})")) }
    fn need(&self, have: bool, what: &str) -> R<()> { if have { Ok(()) } else { Err(Trap::Illegal(self.pc, format!("{what} instruction on a CPU without it"))) } }
    fn addc(&mut self, a: u64, b: u64, cin: bool, sf: bool, set: bool) -> u64 {
        let (a, b) = (a & mk(sf), b & mk(sf));
        let t = a as u128 + b as u128 + cin as u128;
        let r = t as u64 & mk(sf);
        if set {
            let top = if sf { 63 } else { 31 };
            self.n = r >> top & 1 != 0;
            self.z = r == 0;
            self.c = t >> (top + 1) != 0;
            self.vf = ((a ^ r) & (b ^ r)) >> top & 1 != 0;
        }
        r
    }
    fn cond(&self, c: u32) -> bool {
        let v = match c >> 1 {
            0 => self.z,
            1 => self.c,
            2 => self.n,
            3 => self.vf,
            4 => self.c && !self.z,
            5 => self.n == self.vf,
            6 => self.n == self.vf && !self.z,
            _ => return true,
        };
        v != (c & 1 != 0)
    }
    fn set_nzcv(&mut self, f: u32) { self.n = f & 8 != 0; self.z = f & 4 != 0; self.c = f & 2 != 0; self.vf = f & 1 != 0; }
    pub fn step(&mut self, m: &mut Mem) -> R<()> {
        let pc = self.pc;
        let w = match m.fetch(pc, 4) { Some(b) if b.len() == 4 && pc & 3 == 0 => u32::from_le_bytes([b[0], b[1], b[2], b[3]]), _ => return Err(Trap::Fault(pc, "jump outside the program")) };
        self.npc = pc + 4;
        match w >> 25 & 15 {
            8 | 9 => self.dpimm(w)?,
            10 | 11 => self.branch(m, w)?,
            4 | 6 | 12 | 14 => self.ldst(m, w)?,
            5 | 13 => self.dpreg(w)?,
            7 | 15 => self.simd(w)?,
            0 if w >> 16 == 0 => return Err(Trap::Abort(pc, "udf")),
            _ => return Err(self.unk(w, "top")),
        }
        self.pc = self.npc;
        Ok(())
    }
    fn dpimm(&mut self, w: u32) -> R<()> {
        let sf = w >> 31 != 0;
        let (rd, rn) = (w & 31, w >> 5 & 31);
        match w >> 23 & 7 {
            0 | 1 => {
                let imm = sx(((w >> 5 & 0x7ffff) << 2 | w >> 29 & 3) as u64, 21);
                let v = if sf { (self.pc & !0xfff).wrapping_add(imm << 12) } else { self.pc.wrapping_add(imm) };
                self.w(rd, v);
            }
            2 => {
                let mut imm = (w >> 10 & 0xfff) as u64;
                if w >> 22 & 1 != 0 { imm <<= 12; }
                let (sub, s) = (w >> 30 & 1 != 0, w >> 29 & 1 != 0);
                let a = self.rs(rn);
                let v = if sub { self.addc(a, !imm, true, sf, s) } else { self.addc(a, imm, false, sf, s) };
                if s { self.w(rd, v) } else { self.ws(rd, v) }
            }
            4 => {
                let (imm, _) = bitmasks(w >> 22 & 1, w >> 10 & 63, w >> 16 & 63, true).ok_or_else(|| self.unk(w, "bitmask"))?;
                let a = self.r(rn);
                let opc = w >> 29 & 3;
                let v = match opc { 0 | 3 => a & imm, 1 => a | imm, _ => a ^ imm } & mk(sf);
                if opc == 3 { self.logf(v, sf); self.w(rd, v); } else { self.ws(rd, v); }
            }
            5 => {
                let sh = (w >> 21 & 3) * 16;
                let imm = (w >> 5 & 0xffff) as u64;
                let v = match w >> 29 & 3 {
                    0 => !(imm << sh),
                    2 => imm << sh,
                    3 => self.r(rd) & !(0xffff << sh) | imm << sh,
                    _ => return Err(self.unk(w, "movw")),
                };
                self.w(rd, v & mk(sf));
            }
            6 => {
                let (immr, imms) = (w >> 16 & 63, w >> 10 & 63);
                let (wm, tm) = bitmasks(w >> 22 & 1, imms, immr, false).ok_or_else(|| self.unk(w, "bitfield"))?;
                let opc = w >> 29 & 3;
                let ds = if sf { 64 } else { 32 };
                let src = self.r(rn) & mk(sf);
                let ror = if immr == 0 { src } else if sf { src.rotate_right(immr) } else { (src as u32).rotate_right(immr) as u64 };
                let dst = if opc == 1 { self.r(rd) } else { 0 };
                let bot = dst & !wm | ror & wm;
                let v = match opc {
                    0 => { let top = if src >> imms & 1 != 0 { !0 } else { 0 }; top & !tm | bot & tm }
                    1 => dst & !tm | bot & tm,
                    _ => bot & tm,
                };
                let _ = ds;
                self.w(rd, v & mk(sf));
            }
            7 => {
                let (rm, l) = (w >> 16 & 31, w >> 10 & 63);
                let (a, b) = (self.r(rn) & mk(sf), self.r(rm) & mk(sf));
                let v = if l == 0 { b } else if sf { b >> l | a << (64 - l) } else { (b >> l | a << (32 - l)) & 0xffff_ffff };
                self.w(rd, v);
            }
            _ => return Err(self.unk(w, "dpimm")),
        }
        Ok(())
    }
    fn logf(&mut self, v: u64, sf: bool) { self.n = v >> if sf { 63 } else { 31 } & 1 != 0; self.z = v == 0; self.c = false; self.vf = false; }
    fn branch(&mut self, m: &mut Mem, w: u32) -> R<()> {
        if w >> 26 & 31 == 5 {
            let t = self.pc.wrapping_add(sx((w as u64 & 0x3ff_ffff) << 2, 28));
            if w >> 31 != 0 { self.x[30] = self.npc; }
            self.npc = t;
        } else if w >> 25 & 63 == 0b011010 {
            let v = self.r(w & 31) & mk(w >> 31 != 0);
            if (v == 0) != (w >> 24 & 1 != 0) { self.npc = self.pc.wrapping_add(sx((w as u64 >> 5 & 0x7ffff) << 2, 21)); }
        } else if w >> 25 & 63 == 0b011011 {
            let b = (w >> 31) << 5 | w >> 19 & 31;
            if (self.r(w & 31) >> b & 1 != 0) == (w >> 24 & 1 != 0) { self.npc = self.pc.wrapping_add(sx((w as u64 >> 5 & 0x3fff) << 2, 16)); }
        } else if w >> 24 == 0x54 {
            if self.cond(w & 15) { self.npc = self.pc.wrapping_add(sx((w as u64 >> 5 & 0x7ffff) << 2, 21)); }
        } else if w >> 25 == 0b1101011 {
            let t = self.r(w >> 5 & 31);
            match w >> 21 & 15 {
                0 | 2 => {}
                1 => self.x[30] = self.npc,
                _ => return Err(self.unk(w, "branch reg")),
            }
            self.npc = t;
        } else if w >> 24 == 0xd4 {
            return Err(match w >> 21 & 7 { 1 => Trap::Abort(self.pc, "brk"), 2 => Trap::Abort(self.pc, "hlt"), _ => self.unk(w, "exception") });
        } else if w >> 12 == 0xd5032 {
            if w >> 5 & 127 == 1 { m.pause(); } // yield; the other hints have no effect here
        } else if w >> 12 == 0xd5033 {
            match w >> 5 & 7 {
                2 => m.clrex(),
                4 | 5 => match w >> 8 & 3 {
                    1 => m.fence(true, false, true, true)?,
                    2 => m.fence(false, true, false, true)?,
                    _ => m.fence(true, true, true, true)?,
                },
                6 => m.pause(), // isb: only used as a spin hint
                _ => return Err(self.unk(w, "barrier")),
            }
        } else if w >> 20 == 0xd53 {
            let reg = w >> 5 & 0x7fff;
            match reg {
                0x5a10 | 0x5a20 | 0x5a21 => self.w(w & 31, 0), // NZCV / FPCR / FPSR
                _ => return Err(Trap::Illegal(self.pc, format!("mrs of system register {reg:#x} from user mode"))),
            }
        } else {
            return Err(self.unk(w, "branch/system"));
        }
        Ok(())
    }
    fn al(&self, a: u64, sz: u32) -> R<()> { if a & (sz as u64 - 1) != 0 { Err(Trap::Fault(a, "misaligned ordered or exclusive access")) } else { Ok(()) } }
    #[inline]
    fn ld(&self, m: &mut Mem, a: u64, sz: u32) -> R<u64> { Ok(m.load(a, sz, LK::default())? as u64) }
    fn ld16(&self, m: &mut Mem, a: u64, acq: u8) -> R<u128> { m.load(a, 16, LK { acq, tear: !self.feat.lse2, ..LK::default() }) }
    fn st16(&self, m: &mut Mem, a: u64, v: u128, rel: bool) -> R<()> { m.store(a, 16, v, rel, !self.feat.lse2) }
    fn ldst(&mut self, m: &mut Mem, w: u32) -> R<()> {
        let (rt, rn) = (w & 31, w >> 5 & 31);
        let size = w >> 30;
        match w >> 24 & 0x3f {
            0b001000 => self.excl(m, w),
            0b001100 | 0b001101 => self.ldst_vec(m, w),
            0b011001 => {
                let a = self.rs(rn);
                if w >> 21 & 1 == 1 {
                    // 128-bit atomics
                    self.need(self.feat.lse128, "LSE128")?;
                    if size != 0 { return Err(self.unk(w, "lse128")); }
                    let rt2 = w >> 16 & 31;
                    let (acq, rel) = (w >> 23 & 1 != 0, w >> 22 & 1 != 0);
                    let v = cat2(m, self.r(rt), self.r(rt2), 64);
                    let op = w >> 12 & 15;
                    if !matches!(op, 1 | 3 | 8) { return Err(self.unk(w, "lse128 op")); }
                    self.al(a, 16)?;
                    let o = m.rmw(a, 16, acq, rel, &mut |o| Some(match op { 1 => o & !v, 3 => o | v, _ => v }))?;
                    let (x, y) = split2(m, o, 64);
                    self.w(rt, x);
                    self.w(rt2, y);
                    return Ok(());
                }
                if w >> 10 & 3 == 2 && size >= 2 {
                    // LDIAPP / STILP
                    self.need(self.feat.rcpc3, "LRCPC3")?;
                    let rt2 = w >> 16 & 31;
                    let opc2 = w >> 12 & 15;
                    let sf = size & 1 != 0;
                    let each = if sf { 8 } else { 4 };
                    let load = w >> 22 & 1 != 0;
                    let (ea, wb) = match (load, opc2) {
                        (_, 1) => (a, None),
                        (true, 0) => (a, Some(a.wrapping_add(each * 2))),
                        (false, 0) => (a.wrapping_sub(each * 2), Some(a.wrapping_sub(each * 2))),
                        _ => return Err(self.unk(w, "rcpc3 pair")),
                    };
                    if load {
                        let v = if sf { self.ld16(m, ea, 1)? } else { m.load(ea, 8, LK { acq: 1, ..LK::default() })? };
                        let (lo, hi) = split2(m, v, if sf { 64 } else { 32 });
                        self.w(rt, lo);
                        self.w(rt2, hi);
                    } else if sf {
                        let v = cat2(m, self.r(rt), self.r(rt2), 64);
                        self.st16(m, ea, v, true)?;
                    } else {
                        let v = cat2(m, self.r(rt), self.r(rt2), 32);
                        m.store(ea, 8, v, true, false)?;
                    }
                    if let Some(b) = wb { self.ws(rn, b); }
                    return Ok(());
                }
                if w >> 10 & 3 == 0 {
                    // LDAPUR / STLUR
                    self.need(self.feat.rcpc2, "LRCPC2")?;
                    let ea = a.wrapping_add(sx((w >> 12 & 0x1ff) as u64, 9));
                    let sz = 1 << size;
                    self.al(ea, sz)?;
                    match w >> 22 & 3 {
                        0 => m.store(ea, sz, (self.r(rt) & szmask(sz)) as u128, true, false)?,
                        1 => { let v = m.load(ea, sz, LK { acq: 1, ..LK::default() })? as u64; self.w(rt, v); }
                        k => { let v = m.load(ea, sz, LK { acq: 1, ..LK::default() })? as u64; let v = sx(v, sz * 8); self.w(rt, if k == 3 { v & 0xffff_ffff } else { v }); }
                    }
                    return Ok(());
                }
                Err(self.unk(w, "ldst 011001"))
            }
            0b011000 | 0b011100 => {
                let a = self.pc.wrapping_add(sx((w as u64 >> 5 & 0x7ffff) << 2, 21));
                if w >> 26 & 1 != 0 {
                    let sz = 4 << size;
                    let v = m.load(a, sz, LK::default())?;
                    self.v[rt as usize] = v;
                } else {
                    match size {
                        0 => { let v = self.ld(m, a, 4)?; self.w(rt, v); }
                        1 => { let v = self.ld(m, a, 8)?; self.w(rt, v); }
                        2 => { let v = self.ld(m, a, 4)?; self.w(rt, sx(v, 32)); }
                        _ => {}
                    }
                }
                Ok(())
            }
            k if k & 0b111000 == 0b101000 => self.pair(m, w),
            k if k & 0b111000 == 0b111000 => self.reg(m, w),
            _ => Err(self.unk(w, "ldst")),
        }
    }
    fn excl(&mut self, m: &mut Mem, w: u32) -> R<()> {
        let (rt, rn, rt2, rs) = (w & 31, w >> 5 & 31, w >> 10 & 31, w >> 16 & 31);
        let size = w >> 30;
        let (o2, l, o1, o0) = (w >> 23 & 1, w >> 22 & 1 != 0, w >> 21 & 1, w >> 15 & 1 != 0);
        let a = self.rs(rn);
        let sz = 1u32 << size;
        match (o2, o1) {
            (0, 0) => {
                self.al(a, sz)?;
                if l {
                    let v = m.load(a, sz, LK { acq: if o0 { 2 } else { 0 }, ex: true, ..LK::default() })? as u64;
                    self.w(rt, v);
                } else {
                    let v = self.r(rt) & szmask(sz);
                    let ok = m.sc(a, sz, v as u128, o0)?;
                    self.w(rs, !ok as u64);
                }
            }
            (0, 1) if size >= 2 => {
                let each = sz;
                self.al(a, each * 2)?;
                if l {
                    let acq = if o0 { 2 } else { 0 };
                    if each == 4 {
                        let v = m.load(a, 8, LK { acq, ex: true, ..LK::default() })?;
                        let (x, y) = split2(m, v, 32);
                        self.w(rt, x);
                        self.w(rt2, y);
                    } else {
                        // each doubleword is read atomically; the pair only is when the store succeeds
                        let lo = m.load(a, 8, LK { acq, ex: true, ..LK::default() })? as u64;
                        let hi = m.load(a + 8, 8, LK { acq, ex: true, cont: true, ..LK::default() })? as u64;
                        self.w(rt, lo);
                        self.w(rt2, hi);
                    }
                } else {
                    let v = cat2(m, self.r(rt), self.r(rt2), each * 8);
                    let ok = m.sc(a, each * 2, v, o0)?;
                    self.w(rs, !ok as u64);
                }
            }
            (0, _) => {
                // CASP
                self.need(self.feat.lse, "LSE")?;
                if rt2 != 31 || rs & 1 != 0 || rt & 1 != 0 { return Err(self.unk(w, "casp")); }
                let each = if size & 1 != 0 { 8 } else { 4 };
                self.al(a, each * 2)?;
                let (cmp, new) = (cat2(m, self.r(rs), self.r(rs + 1), each * 8), cat2(m, self.r(rt), self.r(rt + 1), each * 8));
                let o = m.rmw(a, each * 2, l, o0, &mut |o| if o == cmp { Some(new) } else { None })?;
                let (x, y) = split2(m, o, each * 8);
                self.w(rs, x);
                self.w(rs + 1, y);
            }
            (1, 0) => {
                self.al(a, sz)?;
                if l {
                    let v = m.load(a, sz, LK { acq: if o0 { 2 } else { 1 }, ..LK::default() })? as u64;
                    self.w(rt, v);
                } else {
                    let v = self.r(rt) & szmask(sz);
                    m.store(a, sz, v as u128, true, false)?;
                }
            }
            _ => {
                self.need(self.feat.lse, "LSE")?;
                self.al(a, sz)?;
                let (cmp, new) = ((self.r(rs) & szmask(sz)) as u128, (self.r(rt) & szmask(sz)) as u128);
                let o = m.rmw(a, sz, l, o0, &mut |o| if o == cmp { Some(new) } else { None })?;
                self.w(rs, o as u64);
            }
        }
        Ok(())
    }
    fn pair(&mut self, m: &mut Mem, w: u32) -> R<()> {
        let (rt, rn, rt2) = (w & 31, w >> 5 & 31, w >> 10 & 31);
        let opc = w >> 30;
        let vec = w >> 26 & 1 != 0;
        let load = w >> 22 & 1 != 0;
        let mode = w >> 23 & 3;
        let each: u64 = if vec { 4 << opc } else if opc >= 2 { 8 } else { 4 };
        let off = sx((w >> 15 & 127) as u64, 7).wrapping_mul(each);
        let base = self.rs(rn);
        let ea = if mode == 1 { base } else { base.wrapping_add(off) };
        if vec {
            if load {
                let ldv = |s: &Self, m: &mut Mem, a: u64| if each == 16 { s.ld16(m, a, 0) } else { m.load(a, each as u32, LK::default()) };
                let a = ldv(self, m, ea)?;
                let b = ldv(self, m, ea + each)?;
                self.v[rt as usize] = a;
                self.v[rt2 as usize] = b;
            } else {
                for (i, r) in [rt, rt2].iter().enumerate() {
                    let v = self.v[*r as usize];
                    let a = ea + i as u64 * each;
                    if each == 16 { self.st16(m, a, v, false)?; } else { m.store(a, each as u32, v & ((1u128 << (each * 8)) - 1), false, false)?; }
                }
            }
        } else if load {
            let (a, b) = if each == 8 {
                let v = self.ld16(m, ea, 0)?;
                split2(m, v, 64)
            } else {
                (self.ld(m, ea, 4)?, self.ld(m, ea + 4, 4)?)
            };
            let sgn = opc == 1;
            self.w(rt, if sgn { sx(a, 32) } else { a });
            self.w(rt2, if sgn { sx(b, 32) } else { b });
        } else if each == 8 {
            let v = cat2(m, self.r(rt), self.r(rt2), 64);
            self.st16(m, ea, v, false)?;
        } else {
            let (a, b) = (self.r(rt) & 0xffff_ffff, self.r(rt2) & 0xffff_ffff);
            m.store(ea, 4, a as u128, false, false)?;
            m.store(ea + 4, 4, b as u128, false, false)?;
        }
        if mode == 1 || mode == 3 { self.ws(rn, base.wrapping_add(off)); }
        Ok(())
    }
    fn reg(&mut self, m: &mut Mem, w: u32) -> R<()> {
        let (rt, rn) = (w & 31, w >> 5 & 31);
        let size = w >> 30;
        let vec = w >> 26 & 1 != 0;
        let opc = w >> 22 & 3;
        let base = self.rs(rn);
        if w >> 24 & 1 == 0 && w >> 21 & 1 == 1 && w >> 10 & 3 == 0 && !vec {
            // atomic memory operations
            let rs = w >> 16 & 31;
            let sz = 1u32 << size;
            let (acq, rel) = (w >> 23 & 1 != 0, w >> 22 & 1 != 0);
            self.al(base, sz)?;
            let op = w >> 12 & 15;
            if op == 12 && acq && !rel && rs == 31 {
                self.need(self.feat.rcpc, "LRCPC")?;
                let v = m.load(base, sz, LK { acq: 1, ..LK::default() })? as u64;
                self.w(rt, v);
                return Ok(());
            }
            if op > 8 { return Err(self.unk(w, "atomic op")); }
            self.need(self.feat.lse, "LSE")?;
            let mx = szmask(sz);
            let b = self.r(rs) & mx;
            let sb = sx(b, sz * 8) as i64;
            // the acquire is dropped when the result is discarded (ST<op> aliases)
            let acq = acq && rt != 31 || op == 8 && acq;
            let o = m.rmw(base, sz, acq, rel, &mut |o| {
                let a = o as u64;
                let sa = sx(a, sz * 8) as i64;
                Some((match op { 0 => a.wrapping_add(b), 1 => a & !b, 2 => a ^ b, 3 => a | b, 4 => if sa > sb { a } else { b }, 5 => if sa < sb { a } else { b }, 6 => a.max(b), 7 => a.min(b), _ => b } & mx) as u128)
            })?;
            self.w(rt, o as u64);
            return Ok(());
        }
        if w >> 24 & 1 == 0 && w >> 21 & 1 == 1 && w >> 10 & 3 == 0 && vec {
            // atomic floating-point operations
            self.need(self.feat.lsfe, "LSFE")?;
            let op = w >> 12 & 15;
            if size == 0 || !matches!(op, 0 | 6 | 7) { return Err(self.unk(w, "atomic fp op")); }
            let sz = 1u32 << size;
            let (acq, rel) = (w >> 23 & 1 != 0, w >> 22 & 1 != 0);
            self.al(base, sz)?;
            let t = match size { 1 => Ty::F16, 2 => Ty::F32, _ => Ty::F64 };
            let b = self.v[(w >> 16 & 31) as usize] & mask_bits(sz * 8);
            let o = m.rmw(base, sz, acq, rel, &mut |a| Some(fp_amo(t, op, a, b)))?;
            self.v[rt as usize] = o;
            return Ok(());
        }
        let scale = if vec { size | (opc & 2) << 1 } else { size };
        let (ea, wb) = if w >> 24 & 1 == 1 {
            (base.wrapping_add(((w >> 10 & 0xfff) as u64) << scale), None)
        } else if w >> 21 & 1 == 1 {
            if w >> 10 & 3 != 2 { return Err(self.unk(w, "ldst reg")); }
            let rm = self.r(w >> 16 & 31);
            let ext = match w >> 13 & 7 { 2 => rm & 0xffff_ffff, 6 => sx(rm, 32), _ => rm };
            (base.wrapping_add(if w >> 12 & 1 != 0 { ext << scale } else { ext }), None)
        } else {
            let imm = sx((w >> 12 & 0x1ff) as u64, 9);
            match w >> 10 & 3 {
                1 => (base, Some(base.wrapping_add(imm))),
                3 => (base.wrapping_add(imm), Some(base.wrapping_add(imm))),
                _ => (base.wrapping_add(imm), None),
            }
        };
        if vec {
            let sz = 1u32 << scale;
            if opc & 1 == 1 {
                let v = if sz == 16 { self.ld16(m, ea, 0)? } else { m.load(ea, sz, LK::default())? };
                self.v[rt as usize] = v;
            } else {
                let v = self.v[rt as usize];
                if sz == 16 { self.st16(m, ea, v, false)?; } else { m.store(ea, sz, v & ((1u128 << (sz * 8)) - 1), false, false)?; }
            }
        } else {
            let sz = 1u32 << size;
            match opc {
                0 => m.store(ea, sz, (self.r(rt) & szmask(sz)) as u128, false, false)?,
                1 => { let v = self.ld(m, ea, sz)?; self.w(rt, v); }
                2 if size == 3 => {} // prfm
                2 => { let v = self.ld(m, ea, sz)?; self.w(rt, sx(v, sz * 8)); }
                _ => { let v = self.ld(m, ea, sz)?; self.w(rt, sx(v, sz * 8) & 0xffff_ffff); }
            }
        }
        if let Some(b) = wb { self.ws(rn, b); }
        Ok(())
    }
    fn ldst_vec(&mut self, m: &mut Mem, w: u32) -> R<()> {
        let (rt, rn) = (w & 31, w >> 5 & 31);
        let q = w >> 30 & 1 != 0;
        let load = w >> 22 & 1 != 0;
        let post = w >> 23 & 1 != 0;
        let base = self.rs(rn);
        let vl: u64 = if q { 16 } else { 8 };
        let total;
        if w >> 24 & 1 == 0 {
            let es = 1u64 << (w >> 10 & 3);
            let (rpt, sel) = match w >> 12 & 15 { 0 => (1, 4), 2 => (4, 1), 4 => (1, 3), 6 => (3, 1), 7 => (1, 1), 8 => (1, 2), 10 => (2, 1), _ => return Err(self.unk(w, "ldst multiple")) };
            total = vl * rpt * sel;
            let n = (rpt * sel) as usize;
            let mut regs: Vec<[u8; 16]> = (0..n).map(|i| if load { [0; 16] } else { self.v[(rt as usize + i) & 31].to_le_bytes() }).collect();
            let mut a = base;
            for r in 0..rpt as usize {
                for e in 0..(vl / es) as usize {
                    for s in 0..sel as usize {
                        let k = r + s;
                        let o = e * es as usize;
                        if load {
                            let v = m.load(a, es as u32, LK::default())? as u64;
                            regs[k][o..o + es as usize].copy_from_slice(&v.to_le_bytes()[..es as usize]);
                        } else {
                            let mut b = [0u8; 8];
                            b[..es as usize].copy_from_slice(&regs[k][o..o + es as usize]);
                            m.store(a, es as u32, u64::from_le_bytes(b) as u128, false, false)?;
                        }
                        a += es;
                    }
                }
            }
            if load { for i in 0..n { self.v[(rt as usize + i) & 31] = u128::from_le_bytes(regs[i]); } }
        } else {
            // single structure: LD1R and LD1/ST1 lane
            let op = w >> 13 & 7;
            if w >> 21 & 1 != 0 { return Err(self.unk(w, "ldst single r")); }
            let sz = w >> 10 & 3;
            if op == 6 && load {
                let es = 1u32 << sz;
                let v = m.load(base, es, LK::default())?;
                let mut r = 0u128;
                for i in 0..vl as u32 / es { r |= v << (i * es * 8); }
                self.v[rt as usize] = r;
                total = es as u64;
            } else {
                let s = w >> 12 & 1;
                let (es, idx) = match op { 0 => (1u32, (q as u32) << 3 | s << 2 | sz), 2 => (2, (q as u32) << 2 | s << 1 | sz >> 1), 4 if sz == 0 => (4, (q as u32) << 1 | s), 4 if sz == 1 => (8, q as u32), _ => return Err(self.unk(w, "ldst single")) };
                let (sh, mx) = (idx * es * 8, (1u128 << (es * 8)) - 1);
                if load {
                    let v = m.load(base, es, LK::default())?;
                    self.v[rt as usize] = self.v[rt as usize] & !(mx << sh) | v << sh;
                } else {
                    m.store(base, es, self.v[rt as usize] >> sh & mx, false, false)?;
                }
                total = es as u64;
            }
        }
        if post {
            let rm = w >> 16 & 31;
            let off = if rm == 31 { total } else { self.r(rm) };
            self.ws(rn, base.wrapping_add(off));
        }
        Ok(())
    }
    fn shift(&self, v: u64, ty: u32, n: u32, sf: bool) -> u64 {
        if n == 0 { return v & mk(sf); }
        if sf {
            match ty { 0 => v << n, 1 => v >> n, 2 => (v as i64 >> n) as u64, _ => v.rotate_right(n) }
        } else {
            let v = v as u32;
            (match ty { 0 => v << n, 1 => v >> n, 2 => (v as i32 >> n) as u32, _ => v.rotate_right(n) }) as u64
        }
    }
    fn dpreg(&mut self, w: u32) -> R<()> {
        let sf = w >> 31 != 0;
        let (rd, rn, rm) = (w & 31, w >> 5 & 31, w >> 16 & 31);
        let opc = w >> 29 & 3;
        match w >> 24 & 31 {
            0b01010 => {
                let mut b = self.shift(self.r(rm), w >> 22 & 3, w >> 10 & 63, sf);
                if w >> 21 & 1 != 0 { b = !b; }
                let a = self.r(rn);
                let v = match opc { 0 | 3 => a & b, 1 => a | b, _ => a ^ b } & mk(sf);
                if opc == 3 { self.logf(v, sf); }
                self.w(rd, v);
            }
            0b01011 => {
                let (sub, s) = (opc & 2 != 0, opc & 1 != 0);
                let ext = w >> 21 & 1 != 0;
                let b = if ext {
                    let r = self.r(rm);
                    let v = match w >> 13 & 7 { 0 => r & 0xff, 1 => r & 0xffff, 2 => r & 0xffff_ffff, 3 => r, 4 => sx(r, 8), 5 => sx(r, 16), 6 => sx(r, 32), _ => r };
                    v << (w >> 10 & 7)
                } else {
                    self.shift(self.r(rm), w >> 22 & 3, w >> 10 & 63, sf)
                };
                let a = if ext { self.rs(rn) } else { self.r(rn) };
                let v = if sub { self.addc(a, !b, true, sf, s) } else { self.addc(a, b, false, sf, s) };
                if ext && !s { self.ws(rd, v) } else { self.w(rd, v) }
            }
            0b11010 => match w >> 21 & 7 {
                0 if w >> 10 & 63 == 0 => {
                    let b = self.r(rm);
                    let c = self.c;
                    let a = self.r(rn);
                    let v = self.addc(a, if opc & 2 != 0 { !b } else { b }, c, sf, opc & 1 != 0);
                    self.w(rd, v);
                }
                2 => {
                    let b = if w >> 11 & 1 != 0 { rm as u64 } else { self.r(rm) };
                    if self.cond(w >> 12 & 15) {
                        let a = self.r(rn);
                        if opc & 2 != 0 { self.addc(a, !b, true, sf, true); } else { self.addc(a, b, false, sf, true); }
                    } else { self.set_nzcv(w & 15); }
                }
                4 => {
                    let v = if self.cond(w >> 12 & 15) { self.r(rn) } else {
                        let b = self.r(rm);
                        match (opc & 2 != 0, w >> 10 & 1 != 0) { (false, false) => b, (false, true) => b.wrapping_add(1), (true, false) => !b, (true, true) => b.wrapping_neg() }
                    };
                    self.w(rd, v & mk(sf));
                }
                6 if opc & 2 != 0 => {
                    let a = self.r(rn);
                    let v = match w >> 10 & 63 {
                        0 => if sf { a.reverse_bits() } else { (a as u32).reverse_bits() as u64 },
                        1 => { let f = |x: u64| (x & 0x00ff_00ff_00ff_00ff) << 8 | x >> 8 & 0x00ff_00ff_00ff_00ff; f(a) & mk(sf) }
                        2 => if sf { let b = a.swap_bytes(); b.rotate_left(32) } else { (a as u32).swap_bytes() as u64 },
                        3 => a.swap_bytes(),
                        4 => if sf { a.leading_zeros() as u64 } else { (a as u32).leading_zeros() as u64 },
                        5 => { let s = if sf { 64 } else { 32 }; let y = (a ^ ((sx(a, s) as i64 >> 1) as u64)) & mk(sf) & (mk(sf) >> 1); let lz = if sf { y.leading_zeros() } else { (y as u32).leading_zeros() }; lz as u64 - 1 }
                        _ => return Err(self.unk(w, "1-source")),
                    };
                    self.w(rd, v);
                }
                6 => {
                    let (a, b) = (self.r(rn) & mk(sf), self.r(rm) & mk(sf));
                    let v = match w >> 10 & 63 {
                        2 => if b == 0 { 0 } else { a / b },
                        3 => if b == 0 { 0 } else if sf { (a as i64).wrapping_div(b as i64) as u64 } else { (a as i32).wrapping_div(b as i32) as u32 as u64 },
                        k @ 8..=11 => self.shift(a, k - 8, b as u32 & if sf { 63 } else { 31 }, sf),
                        _ => return Err(self.unk(w, "2-source")),
                    };
                    self.w(rd, v & mk(sf));
                }
                _ => return Err(self.unk(w, "dpreg 11010")),
            },
            0b11011 => {
                let ra = self.r(w >> 10 & 31);
                let (a, b) = (self.r(rn), self.r(rm));
                let o0 = w >> 15 & 1 != 0;
                let v = match w >> 21 & 7 {
                    0 => { let p = a.wrapping_mul(b); (if o0 { ra.wrapping_sub(p) } else { ra.wrapping_add(p) }) & mk(sf) }
                    1 => { let p = (sx(a, 32) as i64).wrapping_mul(sx(b, 32) as i64) as u64; if o0 { ra.wrapping_sub(p) } else { ra.wrapping_add(p) } }
                    2 => ((a as i64 as i128 * b as i64 as i128) >> 64) as u64,
                    5 => { let p = (a & 0xffff_ffff) * (b & 0xffff_ffff); if o0 { ra.wrapping_sub(p) } else { ra.wrapping_add(p) } }
                    6 => ((a as u128 * b as u128) >> 64) as u64,
                    _ => return Err(self.unk(w, "3-source")),
                };
                self.w(rd, v);
            }
            _ => return Err(self.unk(w, "dpreg")),
        }
        Ok(())
    }
    // ------------------------------------------------------------ FP and AdvSIMD
    fn simd(&mut self, w: u32) -> R<()> {
        if w >> 28 & 1 == 1 && w >> 30 & 1 == 0 { return self.fp(w); }
        if w >> 28 & 1 == 1 { return self.scalar_simd(w); }
        self.vec(w)
    }
    fn fp(&mut self, w: u32) -> R<()> {
        let (rd, rn, rm) = ((w & 31) as usize, (w >> 5 & 31) as usize, (w >> 16 & 31) as usize);
        let ty = w >> 22 & 3;
        // half precision: conversions and moves only
        if w >> 31 == 0 && w >> 21 & 1 == 1 && w >> 10 & 31 == 16 && w >> 29 & 1 == 0 && w >> 24 & 1 == 0 {
            let x = self.v[rn] as u32;
            match (ty, w >> 15 & 63) {
                (3, 0) => { self.v[rd] = x as u128 & 0xffff; return Ok(()); }
                (3, 4) => { self.v[rd] = f16_to_f32(x & 0xffff) as u128; return Ok(()); }
                (0, 7) => { self.v[rd] = f32_to_f16(x) as u128; return Ok(()); }
                _ => {}
            }
        }
        let dbl = match ty { 0 => false, 1 => true, 2 if w >> 21 & 1 == 1 && w >> 10 & 63 == 0 => true, _ => return Err(self.unk(w, "fp type")) };
        let get = |s: &Self, i: usize| s.v[i] as u64 & if dbl { !0 } else { 0xffff_ffff };
        if w >> 24 & 1 != 0 || w >> 29 & 1 != 0 {
            return Err(self.unk(w, "fp 3-source"));
        }
        if w >> 21 & 1 == 0 { return Err(self.unk(w, "fp fixed")); }
        if w >> 10 & 63 == 0 {
            let sf = w >> 31 != 0;
            let (rmode, op) = (w >> 19 & 3, w >> 16 & 7);
            let g = self.r(rn as u32) & mk(sf);
            match (rmode, op) {
                (0, 6) => { let v = self.v[rn] as u64 & mk(sf); self.w(rd as u32, v); }
                (0, 7) => self.v[rd] = g as u128,
                (1, 6) if ty == 2 => { let v = (self.v[rn] >> 64) as u64; self.w(rd as u32, v); }
                (1, 7) if ty == 2 => self.v[rd] = self.v[rd] & 0xffff_ffff_ffff_ffff | (g as u128) << 64,
                (0, 2) | (0, 3) => {
                    let r = match (op, dbl) {
                        (2, true) => (if sf { g as i64 as f64 } else { g as i32 as f64 }).to_bits(),
                        (2, false) => (if sf { g as i64 as f32 } else { g as i32 as f32 }).to_bits() as u64,
                        (_, true) => (g as f64).to_bits(),
                        _ => (g as f32).to_bits() as u64,
                    };
                    self.v[rd] = r as u128;
                }
                (3, 0) | (3, 1) => {
                    let x = get(self, rn);
                    let f = if dbl { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                    let v = match (op, sf) { (0, true) => f as i64 as u64, (0, false) => f as i32 as u32 as u64, (_, true) => f as u64, _ => f as u32 as u64 };
                    self.w(rd as u32, v);
                }
                _ => return Err(self.unk(w, "fp<->int")),
            }
            return Ok(());
        }
        let quiet = |x: u64| if dbl { x | 1 << 51 } else { x | 1 << 22 };
        let isnan = |x: u64| if dbl { f64::from_bits(x).is_nan() } else { f32::from_bits(x as u32).is_nan() };
        let issnan = |x: u64| isnan(x) && quiet(x) != x;
        let pnan = |a: u64, b: u64| -> Option<u64> {
            if issnan(a) { Some(quiet(a)) } else if issnan(b) { Some(quiet(b)) } else if isnan(a) { Some(a) } else if isnan(b) { Some(b) } else { None }
        };
        let dnan = if dbl { 0x7ff8 << 48 } else { 0x7fc0_0000u64 };
        let (a, b) = (get(self, rn), get(self, rm));
        let (fa, fb) = if dbl { (f64::from_bits(a), f64::from_bits(b)) } else { (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) };
        let cmp = |s: &mut Self, x: u64, y: u64, fx: f64, fy: f64| {
            if isnan(x) || isnan(y) { s.set_nzcv(3) } else if fx == fy { s.set_nzcv(6) } else if fx < fy { s.set_nzcv(8) } else { s.set_nzcv(2) }
        };
        match w >> 10 & 3 {
            2 => {
                let op = w >> 12 & 15;
                let r = match op {
                    0 | 1 | 2 | 3 => {
                        let r = if dbl { let (x, y) = (fa, fb); (match op { 0 => x * y, 1 => x / y, 2 => x + y, _ => x - y }).to_bits() } else { let (x, y) = (fa as f32, fb as f32); (match op { 0 => x * y, 1 => x / y, 2 => x + y, _ => x - y }).to_bits() as u64 };
                        pnan(a, b).unwrap_or(if isnan(r) { dnan } else { r })
                    }
                    4..=7 => {
                        let max = op & 1 == 0;
                        let nm = op >= 6;
                        if nm && isnan(a) && !issnan(a) && !isnan(b) { b } else if nm && isnan(b) && !issnan(b) && !isnan(a) { a } else if let Some(n) = pnan(a, b) { n } else if fa == fb {
                            let sg = if dbl { 63 } else { 31 };
                            if max { if a >> sg & 1 != 0 { b } else { a } } else if a >> sg & 1 != 0 { a } else { b }
                        } else if (fa > fb) == max { a } else { b }
                    }
                    _ => return Err(self.unk(w, "fp 2-source")),
                };
                self.v[rd] = r as u128;
            }
            3 => { let r = if self.cond(w >> 12 & 15) { a } else { b }; self.v[rd] = r as u128; }
            1 => { if self.cond(w >> 12 & 15) { cmp(self, a, b, fa, fb); } else { self.set_nzcv(w & 15); } }
            _ => {
                if w >> 12 & 1 != 0 {
                    // fmov immediate
                    let i8 = (w >> 13 & 0xff) as u64;
                    let (s, e, f) = (i8 >> 7, i8 >> 4 & 7, i8 & 15);
                    let r = if dbl { s << 63 | (if e & 4 != 0 { 0xff } else { 0x100 }) << 54 | (e & 3) << 52 | f << 48 } else { s << 31 | (if e & 4 != 0 { 0x1f } else { 0x20 }) << 25 | (e & 3) << 23 | f << 19 };
                    self.v[rd] = r as u128;
                } else if w >> 10 & 15 == 8 {
                    if w & 8 != 0 { cmp(self, a, 0, fa, 0.0); } else { cmp(self, a, b, fa, fb); }
                } else if w >> 10 & 31 == 16 {
                    let sg = if dbl { 1u64 << 63 } else { 1 << 31 };
                    let r = match w >> 15 & 63 {
                        0 => a,
                        1 => a & !sg,
                        2 => a ^ sg,
                        3 => if isnan(a) { quiet(a) } else if dbl { fa.sqrt().to_bits() } else { (fa as f32).sqrt().to_bits() as u64 },
                        4 if dbl => if isnan(a) { (a >> 32 & 0x8000_0000) | 0x7fc0_0000 | a >> 29 & 0x3f_ffff } else { (fa as f32).to_bits() as u64 },
                        5 if !dbl => if isnan(a) { (a & 0x8000_0000) << 32 | 0x7ff8 << 48 | (a & 0x3f_ffff) << 29 } else { fa.to_bits() },
                        _ => return Err(self.unk(w, "fp 1-source")),
                    };
                    self.v[rd] = r as u128;
                } else {
                    return Err(self.unk(w, "fp"));
                }
            }
        }
        Ok(())
    }
    fn scalar_simd(&mut self, w: u32) -> R<()> {
        let (rd, rn, rm) = ((w & 31) as usize, (w >> 5 & 31) as usize, (w >> 16 & 31) as usize);
        // pairwise addp d
        if w & 0xfffffc00 == 0x5ef1b800 { let v = self.v[rn]; self.v[rd] = (v as u64).wrapping_add((v >> 64) as u64) as u128; return Ok(()); }
        // dup (element) scalar
        if w >> 21 & 0x7ff == 0b01011110000 && w >> 10 & 63 == 1 {
            let imm5 = w >> 16 & 31;
            let s = imm5.trailing_zeros();
            let es = 8 << s;
            let idx = imm5 >> (s + 1);
            self.v[rd] = self.v[rn] >> (idx * es) & ((1u128 << es) - 1);
            return Ok(());
        }
        // three same, 64-bit
        if w >> 24 & 31 == 0b11110 && w >> 21 & 1 == 1 && w >> 10 & 1 == 1 && w >> 22 & 3 == 3 {
            let (a, b) = (self.v[rn] as u64, self.v[rm] as u64);
            let u = w >> 29 & 1 != 0;
            let t = |c: bool| if c { !0u64 } else { 0 };
            let r = match (u, w >> 11 & 31) {
                (false, 0b10000) => a.wrapping_add(b),
                (true, 0b10000) => a.wrapping_sub(b),
                (true, 0b10001) => t(a == b),
                (false, 0b00110) => t(a as i64 > b as i64),
                (false, 0b00111) => t(a as i64 >= b as i64),
                (true, 0b00110) => t(a > b),
                (true, 0b00111) => t(a >= b),
                (u, 0b01000) => shl1(a as u128, b as u8 as i8, 64, !u) as u64,
                _ => return Err(self.unk(w, "scalar three same")),
            };
            self.v[rd] = r as u128;
            return Ok(());
        }
        Err(self.unk(w, "scalar simd"))
    }
    fn vec(&mut self, w: u32) -> R<()> {
        let (rd, rn, rm) = ((w & 31) as usize, (w >> 5 & 31) as usize, (w >> 16 & 31) as usize);
        let q = w >> 30 & 1 != 0;
        let u = w >> 29 & 1 != 0;
        let vm: u128 = if q { !0 } else { !0u64 as u128 };
        let size = w >> 22 & 3;
        let es = 8u32 << size;
        let (a, b) = (self.v[rn], self.v[rm]);
        let n = if q { 128 } else { 64 };
        let em = |e: u32| (1u128 << e) - 1;
        let ln = |v: u128, i: u32, e: u32| v >> (i * e) & em(e);
        let sxe = |v: u128, e: u32| ((v << (128 - e)) as i128) >> (128 - e);
        macro_rules! each { ($e:expr, $f:expr) => {{ let e = $e; let mut r = 0u128; for i in 0..n / e { r |= ($f(i) & em(e)) << (i * e); } r }}; }
        if w >> 24 & 31 == 0b01110 {
            if w >> 21 & 1 == 1 && w >> 10 & 1 == 1 {
                // three same
                let op = w >> 11 & 31;
                let t = |c: bool| if c { !0u128 } else { 0 };
                let r = match (u, op) {
                    (false, 3) => match size { 0 => a & b, 1 => a & !b, 2 => a | b, _ => a | !b },
                    (true, 3) => { let d = self.v[rd]; match size { 0 => a ^ b, 1 => d & a | !d & b, 2 => d & !b | a & b, _ => d & b | a & !b } }
                    (false, 0x10) => each!(es, |i| ln(a, i, es).wrapping_add(ln(b, i, es))),
                    (true, 0x10) => each!(es, |i| ln(a, i, es).wrapping_sub(ln(b, i, es))),
                    (true, 0x11) => each!(es, |i| t(ln(a, i, es) == ln(b, i, es))),
                    (false, 0x11) => each!(es, |i| t(ln(a, i, es) & ln(b, i, es) != 0)),
                    (false, 6) => each!(es, |i| t(sxe(ln(a, i, es), es) > sxe(ln(b, i, es), es))),
                    (false, 7) => each!(es, |i| t(sxe(ln(a, i, es), es) >= sxe(ln(b, i, es), es))),
                    (true, 6) => each!(es, |i| t(ln(a, i, es) > ln(b, i, es))),
                    (true, 7) => each!(es, |i| t(ln(a, i, es) >= ln(b, i, es))),
                    (_, 8) => each!(es, |i| shl1(ln(a, i, es), ln(b, i, es) as u8 as i8, es, !u)),
                    (false, 0x13) if size < 3 => each!(es, |i| ln(a, i, es).wrapping_mul(ln(b, i, es))),
                    (false, 0xc) => each!(es, |i| if sxe(ln(a, i, es), es) > sxe(ln(b, i, es), es) { ln(a, i, es) } else { ln(b, i, es) }),
                    (false, 0xd) => each!(es, |i| if sxe(ln(a, i, es), es) < sxe(ln(b, i, es), es) { ln(a, i, es) } else { ln(b, i, es) }),
                    (true, 0xc) => each!(es, |i| ln(a, i, es).max(ln(b, i, es))),
                    (true, 0xd) => each!(es, |i| ln(a, i, es).min(ln(b, i, es))),
                    (false, 0x17) | (_, 0x14) | (_, 0x15) => {
                        let cnt = n / es;
                        let cat = |k: u32| if k < cnt { ln(a, k, es) } else { ln(b, k - cnt, es) };
                        each!(es, |i| { let (x, y) = (cat(2 * i), cat(2 * i + 1)); match (op, u) { (0x17, _) => x.wrapping_add(y), (0x14, true) => x.max(y), (0x15, true) => x.min(y), (0x14, false) => if sxe(x, es) > sxe(y, es) { x } else { y }, _ => if sxe(x, es) < sxe(y, es) { x } else { y } } })
                    }
                    _ => return Err(self.unk(w, "vec three same")),
                };
                self.v[rd] = r & vm;
                return Ok(());
            }
            if w >> 17 & 31 == 0b10000 && w >> 10 & 3 == 2 {
                // two-register misc
                let op = w >> 12 & 31;
                let t = |c: bool| if c { !0u128 } else { 0 };
                let r = match (u, op) {
                    (false, 0) | (false, 1) | (true, 0) => {
                        let grp = match (u, op) { (false, 0) => 64, (false, 1) => 16, _ => 32 };
                        let mut r = 0u128;
                        for i in 0..n / es { let per = grp / es; let j = i / per * per + (per - 1 - i % per); r |= ln(a, i, es) << (j * es); }
                        r
                    }
                    (true, 5) if size == 0 => !a,
                    (true, 5) => each!(8, |i| (ln(a, i, 8) as u8).reverse_bits() as u128),
                    (false, 5) => each!(8, |i| ln(a, i, 8).count_ones() as u128),
                    (true, 0xb) => each!(es, |i| ln(a, i, es).wrapping_neg()),
                    (false, 0xb) => each!(es, |i| { let x = sxe(ln(a, i, es), es); x.wrapping_abs() as u128 }),
                    (false, 8) => each!(es, |i| t(sxe(ln(a, i, es), es) > 0)),
                    (false, 9) => each!(es, |i| t(ln(a, i, es) == 0)),
                    (false, 0xa) => each!(es, |i| t(sxe(ln(a, i, es), es) < 0)),
                    (true, 8) => each!(es, |i| t(sxe(ln(a, i, es), es) >= 0)),
                    (true, 9) => each!(es, |i| t(sxe(ln(a, i, es), es) <= 0)),
                    (false, 0x12) => {
                        let mut r = 0u128;
                        for i in 0..64 / es { r |= (a >> (i * 2 * es) & em(es)) << (i * es); }
                        if q { self.v[rd] = self.v[rd] & !0u64 as u128 | r << 64; } else { self.v[rd] = r; }
                        return Ok(());
                    }
                    (false, 0x0f) | (true, 0x0f) if size >= 2 => { let s = 1u128 << (es - 1); each!(es, |i| if u { ln(a, i, es) ^ s } else { ln(a, i, es) & !s }) }
                    _ => return Err(self.unk(w, "vec two misc")),
                };
                self.v[rd] = r & vm;
                return Ok(());
            }
            if w >> 17 & 31 == 0b11000 && w >> 10 & 3 == 2 {
                let op = w >> 12 & 31;
                let it = (0..n / es).map(|i| ln(a, i, es));
                let r = match (u, op) {
                    (false, 0x1b) => it.fold(0u128, |x, y| x.wrapping_add(y)) & em(es),
                    (true, 0x0a) => it.max().unwrap(),
                    (true, 0x1a) => it.min().unwrap(),
                    (false, 0x0a) => it.max_by_key(|x| sxe(*x, es)).unwrap(),
                    (false, 0x1a) => it.min_by_key(|x| sxe(*x, es)).unwrap(),
                    _ => return Err(self.unk(w, "across lanes")),
                };
                self.v[rd] = r;
                return Ok(());
            }
            if w >> 21 & 7 == 0 && w >> 15 & 1 == 0 && w >> 10 & 1 == 1 {
                // copy
                let imm5 = w >> 16 & 31;
                let s = imm5.trailing_zeros();
                let e = 8u32 << s;
                let idx = imm5 >> (s + 1);
                let imm4 = w >> 11 & 15;
                if u {
                    let v = ln(a, imm4 >> s, e);
                    self.v[rd] = self.v[rd] & !(em(e) << (idx * e)) | v << (idx * e);
                    return Ok(());
                }
                match imm4 {
                    0 => { let v = ln(a, idx, e); self.v[rd] = each!(e, |_| v); }
                    1 => { let v = self.r(rn as u32) as u128; self.v[rd] = each!(e, |_| v); }
                    3 => { let v = self.r(rn as u32) as u128 & em(e); self.v[rd] = self.v[rd] & !(em(e) << (idx * e)) | v << (idx * e); }
                    5 => { let v = sxe(ln(a, idx, e), e) as u64; self.w(rd as u32, v & mk(q)); }
                    7 => { let v = ln(a, idx, e) as u64; self.w(rd as u32, v); }
                    _ => return Err(self.unk(w, "copy")),
                }
                return Ok(());
            }
            if w >> 21 & 1 == 0 && w >> 15 & 1 == 0 && w >> 10 & 3 == 2 && !u {
                // permute
                let cnt = n / es;
                let part = w >> 14 & 1;
                let cat = |k: u32| if k < cnt { ln(a, k, es) } else { ln(b, k - cnt, es) };
                let r = match w >> 12 & 3 {
                    1 => each!(es, |i| cat(2 * i + part)),
                    2 => each!(es, |i| { let k = i / 2 * 2 + part; if i & 1 == 0 { ln(a, k, es) } else { ln(b, k, es) } }),
                    3 => each!(es, |i| { let k = part * cnt / 2 + i / 2; if i & 1 == 0 { ln(a, k, es) } else { ln(b, k, es) } }),
                    _ => return Err(self.unk(w, "permute")),
                };
                self.v[rd] = r & vm;
                return Ok(());
            }
            if w >> 21 & 7 == 0 && w >> 15 & 1 == 0 && w >> 10 & 1 == 0 && u {
                let sh = (w >> 11 & 15) * 8;
                let r = if q { if sh == 0 { a } else { a >> sh | b << (128 - sh) } } else { let c = a & vm | b << 64; c >> sh };
                self.v[rd] = r & vm;
                return Ok(());
            }
            if w >> 21 & 7 == 0 && w >> 15 & 1 == 0 && w >> 10 & 3 == 0 && !u {
                // tbl/tbx
                let len = (w >> 13 & 3) + 1;
                let tbx = w >> 12 & 1 != 0;
                let tab: Vec<u8> = (0..len as usize).flat_map(|k| self.v[(rn + k) & 31].to_le_bytes()).collect();
                let (ix, mut out) = (b.to_le_bytes(), if tbx { self.v[rd].to_le_bytes() } else { [0; 16] });
                for i in 0..16 { if let Some(x) = tab.get(ix[i] as usize) { out[i] = *x; } }
                self.v[rd] = u128::from_le_bytes(out) & vm;
                return Ok(());
            }
            if w >> 21 & 1 == 1 && w >> 10 & 3 == 0 {
                // three different (widening)
                let op = w >> 12 & 15;
                let part = if q { 64 } else { 0 };
                let half = |v: u128, i: u32| { let x = v >> part >> (i * es) & em(es); if u { x } else { sxe(x, es) as u128 } };
                let mut r = 0u128;
                let d = self.v[rd];
                for i in 0..64 / es {
                    let (x, y) = (half(a, i), half(b, i));
                    let v = match op { 0 => x.wrapping_add(y), 2 => x.wrapping_sub(y), 12 => x.wrapping_mul(y), 8 => ln(d, i, es * 2).wrapping_add(x.wrapping_mul(y)), 1 => ln(a, i, es * 2).wrapping_add(y), 3 => ln(a, i, es * 2).wrapping_sub(y), _ => return Err(self.unk(w, "three different")) };
                    r |= (v & em(es * 2)) << (i * es * 2);
                }
                self.v[rd] = r;
                return Ok(());
            }
        }
        if w >> 24 & 31 == 0b01111 {
            if w >> 10 & 1 == 1 {
                let immh = w >> 19 & 15;
                if immh == 0 {
                    // modified immediate
                    let cmode = w >> 12 & 15;
                    let i8 = ((w >> 16 & 7) << 5 | w >> 5 & 31) as u64;
                    let rep32 = |x: u64| x | x << 32;
                    let rep16 = |x: u64| rep32(x | x << 16);
                    let imm = match cmode >> 1 {
                        0..=3 => rep32(i8 << (8 * (cmode >> 1))),
                        4 => rep16(i8),
                        5 => rep16(i8 << 8),
                        6 => rep32(if cmode & 1 == 0 { i8 << 8 | 0xff } else { i8 << 16 | 0xffff }),
                        _ => match (cmode & 1, u) {
                            (0, false) => i8 * 0x0101_0101_0101_0101,
                            (0, true) => (0..8).fold(0u64, |x, i| x | if i8 >> i & 1 != 0 { 0xff << (8 * i) } else { 0 }),
                            (_, false) => { let (s, e, f) = (i8 >> 7, i8 >> 4 & 7, i8 & 15); rep32(s << 31 | (if e & 4 != 0 { 0x1f } else { 0x20 }) << 25 | (e & 3) << 23 | f << 19) }
                            _ => { let (s, e, f) = (i8 >> 7, i8 >> 4 & 7, i8 & 15); s << 63 | (if e & 4 != 0 { 0xff } else { 0x100 }) << 54 | (e & 3) << 52 | f << 48 }
                        },
                    };
                    let imm = imm as u128 | (imm as u128) << 64;
                    let bitop = cmode < 12 && cmode & 1 == 1;
                    let d = self.v[rd];
                    let r = match (bitop, u && cmode < 14) { (true, false) => d | imm, (true, true) => d & !imm, (false, false) => imm, (false, true) => !imm };
                    self.v[rd] = r & vm;
                    return Ok(());
                }
                // shift by immediate
                let hs = 31 - immh.leading_zeros();
                let e = 8u32 << hs;
                let immhb = w >> 16 & 127;
                let op = w >> 11 & 31;
                let r = match op {
                    0 => { let s = 2 * e - immhb; each!(e, |i| { let x = ln(a, i, e); if u { if s >= e { 0 } else { x >> s } } else { (sxe(x, e) >> s) as u128 } }) }
                    2 => { let s = 2 * e - immhb; let d = self.v[rd]; each!(e, |i| { let x = ln(a, i, e); ln(d, i, e).wrapping_add(if u { x >> s } else { (sxe(x, e) >> s) as u128 }) }) }
                    10 => { let s = immhb - e; if u { let d = self.v[rd]; each!(e, |i| ln(d, i, e) & em(s) | ln(a, i, e) << s) } else { each!(e, |i| ln(a, i, e) << s) } }
                    8 if u => { let s = 2 * e - immhb; let d = self.v[rd]; each!(e, |i| ln(d, i, e) & !(em(e) >> s) | ln(a, i, e) >> s) }
                    20 => {
                        let s = immhb - e;
                        let part = if q { 64 } else { 0 };
                        let mut r = 0u128;
                        for i in 0..64 / e { let x = a >> part >> (i * e) & em(e); let x = if u { x } else { sxe(x, e) as u128 }; r |= (x << s & em(2 * e)) << (i * 2 * e); }
                        self.v[rd] = r;
                        return Ok(());
                    }
                    16 if !u => {
                        let s = 2 * e - immhb;
                        let mut r = 0u128;
                        for i in 0..64 / e { r |= (a >> (i * 2 * e) & em(2 * e)) >> s << (128 - e) >> (128 - e) << (i * e); }
                        if q { self.v[rd] = self.v[rd] & !0u64 as u128 | r << 64; } else { self.v[rd] = r; }
                        return Ok(());
                    }
                    28 if e >= 32 => { // scvtf, ucvtf (fixed point)
                        let f = 2 * e - immhb;
                        each!(e, |i| {
                            let x = ln(a, i, e);
                            let s = sxe(x, e);
                            if e == 64 { let v = if u { x as u64 as f64 } else { s as i64 as f64 }; (v / 2f64.powi(f as i32)).to_bits() as u128 }
                            else { let v = if u { x as u32 as f32 } else { s as i32 as f32 }; (v / 2f32.powi(f as i32)).to_bits() as u128 }
                        })
                    }
                    _ => return Err(self.unk(w, "shift imm")),
                };
                self.v[rd] = r & vm;
                return Ok(());
            }
            // by element
            let op = w >> 12 & 15;
            if op == 8 && !u && (size == 1 || size == 2) {
                let (idx, r2) = if size == 1 { (w >> 11 & 1) << 2 | (w >> 21 & 1) << 1 | w >> 20 & 1 } else { (w >> 11 & 1) << 1 | w >> 21 & 1 }.pipe(|i| (i, if size == 1 { rm & 15 } else { rm }));
                let y = ln(self.v[r2], idx, es);
                let r = each!(es, |i| ln(a, i, es).wrapping_mul(y));
                self.v[rd] = r & vm;
                return Ok(());
            }
        }
        Err(self.unk(w, "vec"))
    }
    // ------------------------------------------------------------ calls
    pub fn start_call(&mut self, _m: &mut Mem, f: u64, args: &[u64], sp: u64, ret: u64) {
        for i in 0..31 { self.x[i] = 0xA5A5_0000_5A5A_0000 | i as u64 * 0x0101; }
        for i in 0..32 { self.v[i] = 0xDEAD_BEEF_0000_0000_1234_5678_0000_0000 | i as u128; }
        self.set_nzcv(15);
        for (i, a) in args.iter().enumerate() { self.x[i] = *a; }
        self.sp = sp & !15;
        // shadow call stack, for targets that use one (Fuchsia)
        self.x[18] = (sp & !15) - 0x4000;
        self.x[30] = ret;
        self.pc = f;
    }
    pub fn check_saved(&self, sp0: u64, _nargs: usize) -> Option<String> {
        for i in 19..30 {
            let want = 0xA5A5_0000_5A5A_0000 | i as u64 * 0x0101;
            if self.x[i] != want { return Some(format!("callee-saved register x{i} changed from {want:#x} to {:#x}", self.x[i])); }
        }
        for i in 8..16 {
            let want = 0x1234_5678_0000_0000 | i as u64;
            if self.v[i] as u64 != want { return Some(format!("callee-saved register d{i} changed from {want:#x} to {:#x}", self.v[i] as u64)); }
        }
        if self.sp != sp0 & !15 { return Some(format!("stack pointer is {:#x} after return, expected {:#x}", self.sp, sp0 & !15)); }
        None
    }
    pub fn arg(&self, _m: &Mem, i: usize) -> u64 { self.x[i] }
    pub fn do_return(&mut self, _m: &Mem, v: u64) {
        self.pc = self.x[30];
        for i in 1..18 { self.x[i] = 0xC0C0_C0C0_C0C0_C0C0; }
        for i in (0..8).chain(16..32) { self.v[i] = 0xC0C0_C0C0; }
        for i in 8..16 { self.v[i] = self.v[i] as u64 as u128 | 0xC0C0 << 64; }
        self.set_nzcv(9);
        self.x[0] = v;
    }
    pub fn sp(&self) -> u64 { self.sp }
}
trait Pipe: Sized { fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T { f(self) } }
impl Pipe for u32 {}
/// SSHL/USHL of one lane.
fn shl1(x: u128, s: i8, e: u32, signed: bool) -> u128 {
    let m = (1u128 << e) - 1;
    let x = x & m;
    if s >= 0 { return if s as u32 >= e { 0 } else { x << s & m }; }
    let r = (-(s as i32)) as u32;
    if signed { let v = ((x << (128 - e)) as i128) >> (128 - e); ((v >> r.min(127)) as u128) & m } else if r >= e { 0 } else { x >> r }
}
