//! RISC-V instruction emulator (RV32/RV64 I, M, A, F, D, C, Zicsr, Zba, Zbb-free, Zacas, Zabha) with the
//! interrupt-enable state of one privilege mode.
use crate::mem::{Mem, Trap, LK};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct RvFeat {
    /// AMO instructions / LR and SC
    pub amo: bool,
    pub lrsc: bool,
    pub zacas: bool,
    pub zabha: bool,
    pub fd: bool,
    /// Runs in S-mode (M-mode registers are not accessible).
    pub smode: bool,
    /// Other bits of the status register.
    pub status: u32,
    /// riscv_hwprobe: 0 works, 1 not implemented, 2 extension key unknown, 3 base behaviour not IMA, 4 both keys unknown
    pub report: u8,
}
impl RvFeat {
    pub fn full() -> RvFeat { RvFeat { amo: true, lrsc: true, zacas: true, zabha: true, fd: true, smode: false, status: 0x6600, report: 0 } }
    pub fn bits(&self) -> u64 { self.amo as u64 | (self.lrsc as u64) << 1 | (self.zacas as u64) << 2 | (self.zabha as u64) << 3 | (self.fd as u64) << 4 | (self.smode as u64) << 5 | (self.report as u64) << 8 | (self.status as u64) << 16 }
    pub fn from_bits(b: u64) -> RvFeat { RvFeat { amo: b & 1 != 0, lrsc: b & 2 != 0, zacas: b & 4 != 0, zabha: b & 8 != 0, fd: b & 16 != 0, smode: b & 32 != 0, report: (b >> 8) as u8, status: (b >> 16) as u32 } }
}
#[derive(Clone)]
pub struct Rv {
    x: [u64; 32],
    f: [u64; 32],
    pub pc: u64,
    npc: u64,
    is64: bool,
    /// embedded (16 registers)
    pub status: u64,
    pub feat: RvFeat,
}
type R<T> = Result<T, Trap>;
fn sx(v: u64, b: u32) -> u64 { ((v << (64 - b)) as i64 >> (64 - b)) as u64 }
fn bits(w: u32, hi: u32, lo: u32) -> u32 { w >> lo & ((1 << (hi - lo + 1)) - 1) }
const QNAN32: u32 = 0x7fc0_0000;
const QNAN64: u64 = 0x7ff8_0000_0000_0000;

impl Rv {
    pub fn new(is64: bool, feat: RvFeat) -> Rv {
        let st = (feat.status as u64 & !0xa) | if feat.smode { 2 } else { 8 };
        Rv { x: [0; 32], f: [0; 32], pc: 0, npc: 0, is64, status: st, feat }
    }
    fn xl(&self) -> u32 { if self.is64 { 64 } else { 32 } }
    #[inline]
    fn r(&self, i: u32) -> u64 { self.x[i as usize] }
    /// signed view of a register
    fn s(&self, i: u32) -> i64 { if self.is64 { self.x[i as usize] as i64 } else { self.x[i as usize] as u32 as i32 as i64 } }
    #[inline]
    fn w(&mut self, i: u32, v: u64) { if i != 0 { self.x[i as usize] = if self.is64 { v } else { v & 0xffff_ffff }; } }
    fn ad(&self, v: u64) -> u64 { if self.is64 { v } else { v & 0xffff_ffff } }
    fn unk(&self, w: u32, s: &str) -> Trap { Trap::Unknown(self.pc, format!("{w:08x} ({s})")) }
    fn need(&self, have: bool, what: &str) -> R<()> { if have { Ok(()) } else { Err(Trap::Illegal(self.pc, format!("{what} instruction on a CPU without it"))) } }

    pub fn step(&mut self, m: &mut Mem) -> R<()> {
        let pc = self.pc;
        let (lo, hi) = match m.fetch(pc, 4) { Some(b) if b.len() >= 2 && pc & 1 == 0 => (u16::from_le_bytes([b[0], b[1]]), if b.len() >= 4 { u16::from_le_bytes([b[2], b[3]]) } else { 0 }), _ => return Err(Trap::Fault(pc, "jump outside the program")) };
        let w = if lo & 3 == 3 { self.npc = pc + 4; lo as u32 | (hi as u32) << 16 } else { self.npc = pc + 2; self.expand(lo as u32)? };
        self.exec(m, w)?;
        self.pc = self.ad(self.npc);
        Ok(())
    }
    /// Compressed instruction to its 32-bit form.
    fn expand(&self, c: u32) -> R<u32> {
        let bad = || Trap::Unknown(self.pc, format!("{c:04x} (compressed)"));
        let i = |imm: u32, rs1: u32, f3: u32, rd: u32, op: u32| (imm & 0xfff) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op;
        let s = |imm: u32, rs2: u32, rs1: u32, f3: u32, op: u32| (imm >> 5 & 0x7f) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (imm & 31) << 7 | op;
        let rr = |f7: u32, rs2: u32, rs1: u32, f3: u32, rd: u32, op: u32| f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op;
        let (rdp, rs1p) = (bits(c, 4, 2) + 8, bits(c, 9, 7) + 8);
        let (rd, rs2) = (bits(c, 11, 7), bits(c, 6, 2));
        let imm6 = sx((bits(c, 12, 12) << 5 | bits(c, 6, 2)) as u64, 6) as u32;
        let j = |imm: u32, rd: u32| (imm >> 20 & 1) << 31 | (imm >> 1 & 0x3ff) << 21 | (imm >> 11 & 1) << 20 | (imm >> 12 & 0xff) << 12 | rd << 7 | 0x6f;
        let b = |imm: u32, rs1: u32, f3: u32| (imm >> 12 & 1) << 31 | (imm >> 5 & 0x3f) << 25 | rs1 << 15 | f3 << 12 | (imm >> 1 & 15) << 8 | (imm >> 11 & 1) << 7 | 0x63;
        let lw = bits(c, 5, 5) << 6 | bits(c, 12, 10) << 3 | bits(c, 6, 6) << 2;
        let ld = bits(c, 6, 5) << 6 | bits(c, 12, 10) << 3;
        let cj = sx((bits(c, 12, 12) << 11 | bits(c, 8, 8) << 10 | bits(c, 10, 9) << 8 | bits(c, 6, 6) << 7 | bits(c, 7, 7) << 6 | bits(c, 2, 2) << 5 | bits(c, 11, 11) << 4 | bits(c, 5, 3) << 1) as u64, 12) as u32;
        let cb = sx((bits(c, 12, 12) << 8 | bits(c, 6, 5) << 6 | bits(c, 2, 2) << 5 | bits(c, 11, 10) << 3 | bits(c, 4, 3) << 1) as u64, 9) as u32;
        Ok(match (c & 3, c >> 13) {
            (0, 0) => {
                let imm = bits(c, 10, 7) << 6 | bits(c, 12, 11) << 4 | bits(c, 5, 5) << 3 | bits(c, 6, 6) << 2;
                if c == 0 { return Err(Trap::Abort(self.pc, "unimp")); }
                if imm == 0 { return Err(bad()); }
                i(imm, 2, 0, rdp, 0x13)
            }
            (0, 1) => i(ld, rs1p, 3, rdp, 0x07),
            (0, 2) => i(lw, rs1p, 2, rdp, 0x03),
            (0, 3) => if self.is64 { i(ld, rs1p, 3, rdp, 0x03) } else { i(lw, rs1p, 2, rdp, 0x07) },
            (0, 5) => s(ld, rdp, rs1p, 3, 0x27),
            (0, 6) => s(lw, rdp, rs1p, 2, 0x23),
            (0, 7) => if self.is64 { s(ld, rdp, rs1p, 3, 0x23) } else { s(lw, rdp, rs1p, 2, 0x27) },
            (1, 0) => i(imm6, rd, 0, rd, 0x13),
            (1, 1) => if self.is64 { i(imm6, rd, 0, rd, 0x1b) } else { j(cj, 1) },
            (1, 2) => i(imm6, 0, 0, rd, 0x13),
            (1, 3) => {
                if rd == 2 {
                    let v = sx((bits(c, 12, 12) << 9 | bits(c, 4, 3) << 7 | bits(c, 5, 5) << 6 | bits(c, 2, 2) << 5 | bits(c, 6, 6) << 4) as u64, 10) as u32;
                    i(v, 2, 0, 2, 0x13)
                } else { (imm6 & 0xfffff) << 12 | rd << 7 | 0x37 }
            }
            (1, 4) => match bits(c, 11, 10) {
                0 => i(imm6 & 63, rs1p, 5, rs1p, 0x13),
                1 => i(imm6 & 63 | 0x400, rs1p, 5, rs1p, 0x13),
                2 => i(imm6, rs1p, 7, rs1p, 0x13),
                _ => match (bits(c, 12, 12), bits(c, 6, 5)) {
                    (0, 0) => rr(0x20, rdp, rs1p, 0, rs1p, 0x33),
                    (0, 1) => rr(0, rdp, rs1p, 4, rs1p, 0x33),
                    (0, 2) => rr(0, rdp, rs1p, 6, rs1p, 0x33),
                    (0, 3) => rr(0, rdp, rs1p, 7, rs1p, 0x33),
                    (1, 0) => rr(0x20, rdp, rs1p, 0, rs1p, 0x3b),
                    (1, 1) => rr(0, rdp, rs1p, 0, rs1p, 0x3b),
                    _ => return Err(bad()),
                },
            },
            (1, 5) => j(cj, 0),
            (1, 6) => b(cb, rs1p, 0),
            (1, 7) => b(cb, rs1p, 1),
            (2, 0) => i(imm6 & 63, rd, 1, rd, 0x13),
            (2, 1) => i(bits(c, 4, 2) << 6 | bits(c, 12, 12) << 5 | bits(c, 6, 5) << 3, 2, 3, rd, 0x07),
            (2, 2) => i(bits(c, 3, 2) << 6 | bits(c, 12, 12) << 5 | bits(c, 6, 4) << 2, 2, 2, rd, 0x03),
            (2, 3) => if self.is64 { i(bits(c, 4, 2) << 6 | bits(c, 12, 12) << 5 | bits(c, 6, 5) << 3, 2, 3, rd, 0x03) } else { i(bits(c, 3, 2) << 6 | bits(c, 12, 12) << 5 | bits(c, 6, 4) << 2, 2, 2, rd, 0x07) },
            (2, 4) => match (bits(c, 12, 12), rd, rs2) {
                (0, 0, _) => return Err(bad()),
                (0, _, 0) => i(0, rd, 0, 0, 0x67),
                (0, _, _) => rr(0, rs2, 0, 0, rd, 0x33),
                (_, 0, 0) => 0x0010_0073,
                (_, _, 0) => i(0, rd, 0, 1, 0x67),
                _ => rr(0, rs2, rd, 0, rd, 0x33),
            },
            (2, 5) => s(bits(c, 9, 7) << 6 | bits(c, 12, 10) << 3, rs2, 2, 3, 0x27),
            (2, 6) => s(bits(c, 8, 7) << 6 | bits(c, 12, 9) << 2, rs2, 2, 2, 0x23),
            (2, 7) => if self.is64 { s(bits(c, 9, 7) << 6 | bits(c, 12, 10) << 3, rs2, 2, 3, 0x23) } else { s(bits(c, 8, 7) << 6 | bits(c, 12, 9) << 2, rs2, 2, 2, 0x27) },
            _ => return Err(bad()),
        })
    }
    fn exec(&mut self, m: &mut Mem, w: u32) -> R<()> {
        let (op, rd, f3, rs1, rs2, f7) = (w & 127, bits(w, 11, 7), bits(w, 14, 12), bits(w, 19, 15), bits(w, 24, 20), w >> 25);
        let iimm = sx((w >> 20) as u64, 12);
        let simm = sx(((w >> 25) << 5 | rd) as u64, 12);
        let x64 = self.is64;
        match op {
            0x37 => self.w(rd, sx((w & 0xffff_f000) as u64, 32)),
            0x17 => self.w(rd, self.pc.wrapping_add(sx((w & 0xffff_f000) as u64, 32))),
            0x6f => {
                let imm = sx((bits(w, 31, 31) << 20 | bits(w, 19, 12) << 12 | bits(w, 20, 20) << 11 | bits(w, 30, 21) << 1) as u64, 21);
                self.w(rd, self.npc);
                self.npc = self.pc.wrapping_add(imm);
            }
            0x67 => {
                let t = self.r(rs1).wrapping_add(iimm) & !1;
                self.w(rd, self.npc);
                self.npc = t;
            }
            0x63 => {
                let imm = sx((bits(w, 31, 31) << 12 | bits(w, 7, 7) << 11 | bits(w, 30, 25) << 5 | bits(w, 11, 8) << 1) as u64, 13);
                let (a, b, sa, sb) = (self.r(rs1), self.r(rs2), self.s(rs1), self.s(rs2));
                if match f3 { 0 => a == b, 1 => a != b, 4 => sa < sb, 5 => sa >= sb, 6 => a < b, 7 => a >= b, _ => return Err(self.unk(w, "branch")) } { self.npc = self.pc.wrapping_add(imm); }
            }
            0x03 => {
                let a = self.ad(self.r(rs1).wrapping_add(iimm));
                let sz = 1u32 << (f3 & 3);
                if sz == 8 && !x64 || f3 == 7 || f3 == 6 && !x64 { return Err(self.unk(w, "load")); }
                let v = m.load(a, sz, LK::default())? as u64;
                self.w(rd, if f3 & 4 != 0 || sz == 8 { v } else { sx(v, sz * 8) });
            }
            0x23 => {
                let a = self.ad(self.r(rs1).wrapping_add(simm));
                let sz = 1u32 << (f3 & 3);
                if f3 > 3 || sz == 8 && !x64 { return Err(self.unk(w, "store")); }
                m.store(a, sz, (self.r(rs2) & if sz == 8 { !0 } else { (1 << (sz * 8)) - 1 }) as u128, false, false)?;
            }
            0x07 => {
                self.need(self.feat.fd, "floating-point")?;
                let a = self.ad(self.r(rs1).wrapping_add(iimm));
                let v = match f3 {
                    2 => m.load(a, 4, LK::default())? as u64 | 0xffff_ffff_0000_0000,
                    3 if x64 => m.load(a, 8, LK::default())? as u64,
                    3 => { let l = m.load(a, 4, LK::default())? as u64; let h = m.load(a + 4, 4, LK::default())? as u64; l | h << 32 }
                    _ => return Err(self.unk(w, "fp load")),
                };
                self.f[rd as usize] = v;
            }
            0x27 => {
                self.need(self.feat.fd, "floating-point")?;
                let a = self.ad(self.r(rs1).wrapping_add(simm));
                let v = self.f[rs2 as usize];
                match f3 {
                    2 => m.store(a, 4, v as u32 as u128, false, false)?,
                    3 if x64 => m.store(a, 8, v as u128, false, false)?,
                    3 => { m.store(a, 4, v as u32 as u128, false, false)?; m.store(a + 4, 4, (v >> 32) as u128, false, false)? }
                    _ => return Err(self.unk(w, "fp store")),
                }
            }
            0x13 | 0x33 => {
                let imm = op == 0x13;
                let (a, b) = (self.r(rs1), if imm { iimm } else { self.r(rs2) });
                let shm = self.xl() - 1;
                let v = if !imm && f7 == 1 { self.muldiv(f3, rs1, rs2) } else {
                    let f = if imm { if f3 == 1 || f3 == 5 { f7 & !1 } else { 0 } } else { f7 };
                    let sh = if imm { bits(w, 25, 20) & shm } else { b as u32 & shm };
                    match (f, f3) {
                        (0, 0) => a.wrapping_add(b),
                        (0x20, 0) => a.wrapping_sub(b),
                        (0, 1) => a << sh,
                        (0, 2) => (self.s(rs1) < if imm { iimm as i64 } else { self.s(rs2) }) as u64,
                        (0, 3) => (a < self.ad(b)) as u64,
                        (0, 4) => a ^ b,
                        (0, 5) => a >> sh,
                        (0x20, 5) => (self.s(rs1) >> sh) as u64,
                        (0, 6) => a | b,
                        (0, 7) => a & b,
                        (0x20, 4) => !(a ^ b),
                        (0x20, 6) => a | !b,
                        (0x20, 7) => a & !b,
                        (0x10, 2 | 4 | 6) => (a << (f3 / 2)).wrapping_add(b),
                        _ => return Err(self.unk(w, "op")),
                    }
                };
                self.w(rd, v);
            }
            0x1b | 0x3b if x64 => {
                let imm = op == 0x1b;
                let (a, b) = (self.r(rs1) as u32, if imm { iimm as u32 } else { self.r(rs2) as u32 });
                if !imm && f7 == 1 {
                    let (sa, sb) = (a as i32, b as i32);
                    let v = match f3 {
                        0 => a.wrapping_mul(b),
                        4 => if b == 0 { !0 } else { sa.wrapping_div(sb) as u32 },
                        5 => if b == 0 { !0 } else { a / b },
                        6 => if b == 0 { a } else { sa.wrapping_rem(sb) as u32 },
                        7 => if b == 0 { a } else { a % b },
                        _ => return Err(self.unk(w, "op32")),
                    };
                    self.w(rd, sx(v as u64, 32));
                    return Ok(());
                }
                let f = if imm && f3 == 0 { 0 } else { f7 };
                let sh = if imm { rs2 } else { b & 31 };
                let v = match (f, f3) {
                    (0, 0) => a.wrapping_add(b),
                    (0x20, 0) => a.wrapping_sub(b),
                    (0, 1) => a << sh,
                    (0, 5) => a >> sh,
                    (0x20, 5) => (a as i32 >> sh) as u32,
                    (0x04, 0) if !imm => { self.w(rd, (a as u64).wrapping_add(self.r(rs2))); return Ok(()); }
                    _ => return Err(self.unk(w, "op32")),
                };
                self.w(rd, sx(v as u64, 32));
            }
            0x0f => match f3 {
                0 => {
                    if w == 0x0100_000f { m.pause(); return Ok(()); }
                    let (p, s) = (bits(w, 27, 24), bits(w, 23, 20));
                    if w >> 28 == 8 {
                        m.fence(true, false, true, true)?;
                        m.fence(false, true, false, true)?;
                    } else { m.fence(p & 2 != 0, p & 1 != 0, s & 2 != 0, s & 1 != 0)?; }
                }
                1 => {}
                _ => return Err(self.unk(w, "misc-mem")),
            },
            0x73 => self.system(m, w)?,
            0x2f => self.amo(m, w)?,
            0x53 => { self.need(self.feat.fd, "floating-point")?; self.fp(w)? }
            _ => return Err(self.unk(w, "opcode")),
        }
        Ok(())
    }
    fn muldiv(&self, f3: u32, a: u32, b: u32) -> u64 {
        let xl = self.xl();
        let (ua, ub, sa, sb) = (self.r(a), self.r(b), self.s(a), self.s(b));
        match f3 {
            0 => ua.wrapping_mul(ub),
            1 => ((sa as i128 * sb as i128) >> xl) as u64,
            2 => ((sa as i128 * ub as i128) >> xl) as u64,
            3 => ((ua as u128 * ub as u128) >> xl) as u64,
            4 => if ub == 0 { !0 } else { sa.wrapping_div(sb) as u64 },
            5 => if ub == 0 { !0 } else { ua / ub },
            6 => if ub == 0 { ua } else { sa.wrapping_rem(sb) as u64 },
            _ => if ub == 0 { ua } else { ua % ub },
        }
    }
    fn system(&mut self, m: &mut Mem, w: u32) -> R<()> {
        let (rd, f3, rs1, csr) = (bits(w, 11, 7), bits(w, 14, 12), bits(w, 19, 15), w >> 20);
        match f3 {
            0 => match w {
                0x0000_0073 => return self.ecall(m),
                0x0010_0073 => return Err(Trap::Abort(self.pc, "ebreak")),
                _ => return Err(self.unk(w, "system")),
            },
            4 => return Err(self.unk(w, "system")),
            _ => {}
        }
        let v = if f3 & 4 != 0 { rs1 as u64 } else { self.r(rs1) };
        let old = match csr {
            0x300 => {
                if self.feat.smode { return Err(Trap::Illegal(self.pc, "mstatus accessed in S-mode".into())); }
                self.status
            }
            0x100 => {
                if !self.feat.smode { return Err(Trap::Illegal(self.pc, "sstatus accessed although the program runs in M-mode (interrupts stay enabled)".into())); }
                self.status
            }
            1..=3 => 0,
            0xc00 => return Err(self.unk(w, "rdcycle")),
            _ => return Err(Trap::Illegal(self.pc, format!("CSR {csr:#x}"))),
        };
        let new = match f3 & 3 { 1 => v, 2 => old | v, _ => old & !v };
        let wr = f3 & 3 == 1 || rs1 != 0;
        if wr && (csr == 0x300 || csr == 0x100) { self.status = new; }
        self.w(rd, old);
        Ok(())
    }
    /// Linux riscv_hwprobe.
    fn ecall(&mut self, m: &mut Mem) -> R<()> {
        if self.r(17) != 258 { return Err(Trap::Unknown(self.pc, format!("system call {}", self.r(17)))); }
        if self.feat.report == 1 { self.w(10, -38i64 as u64); return Ok(()); }
        let (p, n) = (self.r(10), self.r(11));
        if n > 64 || self.r(12) != 0 || self.r(13) != 0 || self.r(14) != 0 { return Err(Trap::Unknown(self.pc, "riscv_hwprobe arguments".into())); }
        for i in 0..n {
            let a = p + i * 16;
            let key = m.peek(a, 8) as i64;
            let (k, v) = match key {
                _ if self.feat.report == 4 => (-1, 0),
                3 => (3, (self.feat.report != 3) as u64),
                4 if self.feat.report != 2 => (4, 0x3 | 0x18 | ((self.feat.zacas || self.feat.report == 3) as u64) << 34 | (self.feat.zabha as u64) << 58),
                0..=2 => (key, 0x123),
                _ => (-1, 0),
            };
            m.poke_private(a, 8, k as u64 as u128);
            m.poke_private(a + 8, 8, v as u128);
        }
        self.w(10, 0);
        Ok(())
    }
    fn amo(&mut self, m: &mut Mem, w: u32) -> R<()> {
        let (rd, f3, rs1, rs2) = (bits(w, 11, 7), bits(w, 14, 12), bits(w, 19, 15), bits(w, 24, 20));
        let (aq, rl) = (w >> 26 & 1 != 0, w >> 25 & 1 != 0);
        let f5 = w >> 27;
        let sz = 1u32 << f3;
        if f3 > 4 { return Err(self.unk(w, "amo width")); }
        let a = self.ad(self.r(rs1));
        if sz < 4 { self.need(self.feat.zabha, "Zabha")?; }
        if sz == 8 && !self.is64 && f5 != 5 { return Err(self.unk(w, "amo width")); }
        let mask = |s: u32| if s >= 16 { !0u128 } else { (1u128 << (s * 8)) - 1 };
        match f5 {
            2 => {
                self.need(self.feat.lrsc, "LR/SC")?;
                if rl { m.fence(true, true, true, false)?; }
                let v = m.load(a, sz, LK { acq: if aq { 2 } else { 0 }, ex: true, ..LK::default() })? as u64;
                self.w(rd, sx(v, sz * 8));
            }
            3 => {
                self.need(self.feat.lrsc, "LR/SC")?;
                let ok = m.sc(a, sz, self.r(rs2) as u128 & mask(sz), rl)?;
                if aq { m.fence(false, true, true, true)?; }
                self.w(rd, !ok as u64);
            }
            5 => {
                self.need(self.feat.zacas, "Zacas")?;
                let pair = sz == 16 || sz == 8 && !self.is64;
                if pair && (rd & 1 != 0 || rs2 & 1 != 0) { return Err(Trap::Illegal(self.pc, "amocas with an odd register pair".into())); }
                let hb = self.xl();
                let get = |s: &Self, r: u32| if !pair { s.r(r) as u128 & mask(sz) } else if r == 0 { 0 } else { s.r(r) as u128 | (s.r(r + 1) as u128) << hb };
                let (exp, new) = (get(self, rd), get(self, rs2));
                let o = m.rmw(a, sz, aq, rl, &mut |o| if o == exp { Some(new) } else { None })?;
                if pair { if rd != 0 { self.w(rd, o as u64); self.w(rd + 1, (o >> hb) as u64); } } else { self.w(rd, if sz == 8 { o as u64 } else { sx(o as u64, sz * 8) }); }
            }
            _ => {
                self.need(self.feat.amo, "AMO")?;
                if sz == 16 { return Err(self.unk(w, "amo width")); }
                let b = self.r(rs2) as u128 & mask(sz);
                let nb = sz * 8;
                let sg = |v: u128| sx(v as u64, nb) as i64;
                if !matches!(f5, 0 | 1 | 4 | 8 | 12 | 16 | 20 | 24 | 28) { return Err(self.unk(w, "amo")); }
                let o = m.rmw(a, sz, aq, rl, &mut |o| Some(mask(sz) & match f5 {
                    0 => o.wrapping_add(b),
                    1 => b,
                    4 => o ^ b,
                    8 => o | b,
                    12 => o & b,
                    16 => if sg(o) <= sg(b) { o } else { b },
                    20 => if sg(o) >= sg(b) { o } else { b },
                    24 => o.min(b),
                    _ => o.max(b),
                }))?;
                self.w(rd, sx(o as u64, nb));
            }
        }
        Ok(())
    }
    fn f32(&self, i: u32) -> f32 { let v = self.f[i as usize]; f32::from_bits(if v >> 32 == 0xffff_ffff { v as u32 } else { QNAN32 }) }
    fn f64(&self, i: u32) -> f64 { f64::from_bits(self.f[i as usize]) }
    fn wf32(&mut self, i: u32, v: f32) { self.f[i as usize] = 0xffff_ffff_0000_0000 | if v.is_nan() { QNAN32 } else { v.to_bits() } as u64; }
    fn wf64(&mut self, i: u32, v: f64) { self.f[i as usize] = if v.is_nan() { QNAN64 } else { v.to_bits() }; }
    fn fp(&mut self, w: u32) -> R<()> {
        let (rd, f3, rs1, rs2, f7) = (bits(w, 11, 7), bits(w, 14, 12), bits(w, 19, 15), bits(w, 24, 20), w >> 25);
        let d = f7 & 3 == 1;
        if f7 & 3 > 1 { return Err(self.unk(w, "fp format")); }
        let (a, b) = (self.f32(rs1), self.f32(rs2));
        let (da, db) = (self.f64(rs1), self.f64(rs2));
        macro_rules! ar { ($x:ident, $y:ident => $e:expr) => { if d { let ($x, $y) = (da, db); let v = $e; self.wf64(rd, v); } else { let ($x, $y) = (a, b); let v = $e; self.wf32(rd, v); } }; }
        match f7 >> 2 {
            0 => ar!(x, y => x + y),
            1 => ar!(x, y => x - y),
            2 => ar!(x, y => x * y),
            3 => ar!(x, y => x / y),
            4 => {
                // sign injection (bit-wise, NaNs keep their payload)
                let n = if d { 63 } else { 31 };
                let (x, y) = if d { (self.f[rs1 as usize], self.f[rs2 as usize]) } else { (a.to_bits() as u64, b.to_bits() as u64) };
                let s = 1u64 << n;
                let v = x & !s | match f3 { 0 => y & s, 1 => !y & s, 2 => (x ^ y) & s, _ => return Err(self.unk(w, "fsgnj")) };
                self.f[rd as usize] = if d { v } else { v | 0xffff_ffff_0000_0000 };
            }
            5 => {
                macro_rules! mm { ($x:expr, $y:expr) => {{ let (x, y) = ($x, $y); if x.is_nan() { y } else if y.is_nan() { x } else if x == y { let neg = if f3 == 0 { x.is_sign_negative() } else { !x.is_sign_negative() }; if neg { x } else { y } } else if (x < y) == (f3 == 0) { x } else { y } }}; }
                if d { let v = mm!(da, db); self.wf64(rd, v) } else { let v = mm!(a, b); self.wf32(rd, v) }
            }
            8 => if d { let v = a as f64; self.wf64(rd, v) } else { let v = da as f32; self.wf32(rd, v) },
            20 => {
                let v = if d { match f3 { 0 => da <= db, 1 => da < db, _ => da == db } } else { match f3 { 0 => a <= b, 1 => a < b, _ => a == b } };
                self.w(rd, v as u64);
            }
            28 if f3 == 0 => { let v = self.f[rs1 as usize]; self.w(rd, if d { v } else { sx(v as u32 as u64, 32) }); }
            28 if f3 == 1 => {
                macro_rules! cl { ($x:expr, $snan:expr) => {{ let x = $x; let n = x.is_sign_negative(); 1u64 << if x.is_nan() { if $snan { 8 } else { 9 } } else if x.is_infinite() { if n { 0 } else { 7 } } else if x == 0.0 { if n { 3 } else { 4 } } else if x.is_normal() { if n { 1 } else { 6 } } else if n { 2 } else { 5 } }}; }
                let v = if d { cl!(da, da.to_bits() >> 51 & 1 == 0) } else { cl!(a, a.to_bits() >> 22 & 1 == 0) };
                self.w(rd, v);
            }
            24 => {
                // to an integer: saturating, NaN gives the maximum
                let x = if d { da } else { a as f64 };
                let x = match f3 { 1 => x.trunc(), 2 => x.floor(), 3 => x.ceil(), 4 => x.round(), _ => x.round_ties_even() };
                let nan = x.is_nan();
                let v = match rs2 {
                    0 => if nan { i32::MAX as u64 } else { x as i32 as i64 as u64 },
                    1 => if nan { !0 } else { x as u32 as i32 as i64 as u64 },
                    2 if self.is64 => if nan { i64::MAX as u64 } else { x as i64 as u64 },
                    3 if self.is64 => if nan { !0 } else { x as u64 },
                    _ => return Err(self.unk(w, "fcvt")),
                };
                self.w(rd, v);
            }
            26 => {
                let v = self.r(rs1);
                macro_rules! cv { ($x:expr) => {{ let x = $x; if d { self.wf64(rd, x as f64) } else { self.wf32(rd, x as f32) } }}; }
                match rs2 { 0 => cv!(v as i32), 1 => cv!(v as u32), 2 if self.is64 => cv!(v as i64), 3 if self.is64 => cv!(v), _ => return Err(self.unk(w, "fcvt")) }
            }
            30 if f3 == 0 => { let v = self.r(rs1); self.f[rd as usize] = if d { v } else { v as u32 as u64 | 0xffff_ffff_0000_0000 }; }
            _ => return Err(self.unk(w, "fp")),
        }
        Ok(())
    }
    // ------------------------------------------------------------ calls
    fn mark(&self, i: u64) -> u64 { self.ad(0xA5A5_0000_5A5A_0000 | i * 0x0101) }
    pub fn start_call(&mut self, _m: &mut Mem, f: u64, args: &[u64], sp: u64, ret: u64) {
        for i in 1..32 { self.x[i] = self.mark(i as u64); }
        for i in 0..32 { self.f[i] = 0x1234_5678_0000_0000 | i as u64; }
        for (i, a) in args.iter().enumerate() { self.x[10 + i] = *a; }
        self.x[2] = sp & !15;
        self.x[1] = ret;
        self.pc = f;
    }
    pub fn check_saved(&self, sp0: u64, _nargs: usize) -> Option<String> {
        for i in [3, 4, 8, 9].into_iter().chain(18..28) {
            let want = self.mark(i as u64);
            if self.x[i] != want { return Some(format!("callee-saved register x{i} changed from {want:#x} to {:#x}", self.x[i])); }
        }
        if self.feat.fd {
            for i in [8, 9].into_iter().chain(18..28) {
                let want = 0x1234_5678_0000_0000 | i as u64;
                if self.f[i] != want { return Some(format!("callee-saved register f{i} changed from {want:#x} to {:#x}", self.f[i])); }
            }
        }
        if self.x[2] != sp0 & !15 { return Some(format!("stack pointer is {:#x} after return, expected {:#x}", self.x[2], sp0 & !15)); }
        None
    }
    pub fn arg(&self, _m: &Mem, i: usize) -> u64 { self.x[10 + i] }
    pub fn do_return(&mut self, _m: &Mem, v: u64) {
        self.pc = self.x[1];
        for i in [5usize, 6, 7].into_iter().chain(11..18).chain(28..32) { self.x[i] = self.ad(0xC0C0_C0C0_C0C0_C0C0); }
        for i in (0..8).chain(10..18).chain(28..32) { self.f[i] = 0xC0C0_C0C0; }
        self.w(10, sx(v as u32 as u64, 32));
    }
    pub fn sp(&self) -> u64 { self.x[2] }
    fn ie(&self) -> u64 { if self.feat.smode { 2 } else { 8 } }
    pub fn irq_on(&self) -> bool { self.status & self.ie() != 0 }
    pub fn set_irq(&mut self, on: bool) { if on { self.status |= self.ie() } else { self.status &= !self.ie() } }
}
