//! x86 / x86-64 instruction emulator (user mode, the integer/SSE2 subset compilers emit plus the
//! atomic instructions, with CPUID/XGETBV driven by the simulated CPU's feature set).
use crate::mem::{Mem, Trap, LK};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct X86Feat {
    pub vendor: [u8; 12],
    pub max_leaf: u32,
    pub cx16: bool,
    pub avx: bool,
    pub osxsave: bool,
    pub xcr0: u64,
    /// 16-byte aligned vector accesses are single-copy atomic on this CPU.
    pub vec16_atomic: bool,
}
impl X86Feat {
    pub fn full() -> X86Feat { X86Feat { vendor: *b"GenuineIntel", max_leaf: 0x16, cx16: true, avx: true, osxsave: true, xcr0: 7, vec16_atomic: true } }
}

#[derive(Clone)]
pub struct X86 {
    pub r: [u64; 16],
    pub pc: u64,
    pub x: [u128; 16],
    /// the upper halves of the ymm registers
    xh: [u128; 16],
    cf: bool,
    pf: bool,
    zf: bool,
    sf: bool,
    of: bool,
    df: bool,
    pub hide_cx16: bool,
    st: [f64; 8],
    sti: [i128; 8],
    fcw: u16,
    stisint: [bool; 8],
    top: usize,
    pub is64: bool,
    /// Windows x64 calling convention
    pub win: bool,
    pub feat: X86Feat,
    pub cpuids: u32,
}

enum Rm { Reg(usize), Mem(u64) }
struct D<'a> {
    b: &'a [u8; 16],
    i: usize,
    rex: u8,
    /// added to memory operands (the upper half of a 32-byte operand)
    hi: u64,
    opsz: bool,
    rep: u8,
    lock: bool,
    adsz: bool,
    is64: bool,
    pc: u64,
}
impl D<'_> {
    #[inline]
    fn u8(&mut self) -> u8 { let v = self.b[self.i & 15]; self.i += 1; v }
    fn i8(&mut self) -> i64 { self.u8() as i8 as i64 }
    fn u16(&mut self) -> u64 { let v = u16::from_le_bytes([self.b[self.i & 15], self.b[(self.i + 1) & 15]]); self.i += 2; v as u64 }
    fn i32(&mut self) -> i64 {
        let mut v = [0u8; 4];
        for k in 0..4 { v[k] = self.b[(self.i + k) & 15]; }
        self.i += 4;
        i32::from_le_bytes(v) as i64
    }
    fn u64(&mut self) -> u64 {
        let mut v = [0u8; 8];
        for k in 0..8 { v[k] = self.b[(self.i + k) & 15]; }
        self.i += 8;
        u64::from_le_bytes(v)
    }
    fn imm(&mut self, sz: u32) -> u64 {
        match sz { 1 => self.i8() as u64, 2 => self.u16() as i16 as i64 as u64, _ => self.i32() as u64 }
    }
    #[inline]
    fn w(&self) -> bool { self.rex & 8 != 0 }
    #[inline]
    fn osz(&self) -> u32 { if self.w() { 8 } else if self.opsz { 2 } else { 4 } }
}
#[inline]
fn mask(sz: u32) -> u64 { match sz { 1 => 0xff, 2 => 0xffff, 4 => 0xffff_ffff, _ => !0 } }
#[inline]
fn sext(v: u64, sz: u32) -> i64 { match sz { 1 => v as i8 as i64, 2 => v as i16 as i64, 4 => v as i32 as i64, _ => v as i64 } }
#[inline]
fn top(v: u64, sz: u32) -> bool { v >> (sz * 8 - 1) & 1 != 0 }

type R<T> = Result<T, Trap>;

impl X86 {
    pub fn new(is64: bool, feat: X86Feat) -> X86 {
        X86 { r: [0; 16], pc: 0, x: [0; 16], xh: [0; 16], cf: false, pf: false, zf: false, sf: false, of: false, df: false, hide_cx16: false, st: [0.0; 8], sti: [0; 8], stisint: [false; 8], fcw: 0x37f, top: 0, is64, win: false, feat, cpuids: 0 }
    }
    #[inline]
    fn amask(&self) -> u64 { if self.is64 { !0 } else { 0xffff_ffff } }
    #[inline]
    fn getr(&self, i: usize, sz: u32, rex: bool) -> u64 {
        match sz {
            1 => if !rex && (4..8).contains(&i) { self.r[i - 4] >> 8 & 0xff } else { self.r[i] & 0xff },
            2 => self.r[i] & 0xffff,
            4 => self.r[i] & 0xffff_ffff,
            _ => self.r[i],
        }
    }
    #[inline]
    fn setr(&mut self, i: usize, sz: u32, rex: bool, v: u64) {
        match sz {
            1 => if !rex && (4..8).contains(&i) { self.r[i - 4] = self.r[i - 4] & !0xff00 | (v & 0xff) << 8 } else { self.r[i] = self.r[i] & !0xff | v & 0xff },
            2 => self.r[i] = self.r[i] & !0xffff | v & 0xffff,
            4 => self.r[i] = v & 0xffff_ffff,
            _ => self.r[i] = v,
        }
    }
    fn modrm(&self, d: &mut D, immlen: usize) -> (usize, Rm) {
        let m = d.u8();
        let reg = (m >> 3 & 7) as usize | if d.rex & 4 != 0 { 8 } else { 0 };
        let md = m >> 6;
        let rm = (m & 7) as usize;
        let bx = if d.rex & 1 != 0 { 8 } else { 0 };
        if md == 3 { return (reg, Rm::Reg(rm | bx)); }
        let mut ea: u64;
        let mut rip = false;
        if rm == 4 {
            let s = d.u8();
            let idx = (s >> 3 & 7) as usize | if d.rex & 2 != 0 { 8 } else { 0 };
            let base = (s & 7) as usize;
            ea = 0;
            if idx != 4 { ea = self.r[idx] << (s >> 6); }
            if base == 5 && md == 0 { ea = ea.wrapping_add(d.i32() as u64); } else { ea = ea.wrapping_add(self.r[base | bx]); }
        } else if rm == 5 && md == 0 {
            let disp = d.i32() as u64;
            if d.is64 { rip = true; ea = disp; } else { ea = disp; }
        } else {
            ea = self.r[rm | bx];
        }
        match md { 1 => ea = ea.wrapping_add(d.i8() as u64), 2 => ea = ea.wrapping_add(d.i32() as u64), _ => {} }
        if rip { ea = ea.wrapping_add(d.pc + d.i as u64 + immlen as u64); }
        let ea = ea.wrapping_add(d.hi);
        (reg, Rm::Mem(if d.is64 && !d.adsz { ea } else { ea & 0xffff_ffff }))
    }
    #[inline]
    fn ld(&self, m: &mut Mem, a: u64, sz: u32) -> R<u64> { Ok(m.load(a, sz, LK { acq: 0, tear: !self.feat.vec16_atomic, ..LK::default() })? as u64) }
    #[inline]
    fn ld128(&self, m: &mut Mem, a: u64, sz: u32) -> R<u128> { m.load(a, sz, LK { acq: 0, tear: !self.feat.vec16_atomic, ..LK::default() }) }
    #[inline]
    fn stw(&self, m: &mut Mem, a: u64, sz: u32, v: u64) -> R<()> { m.store(a, sz, v as u128, false, false) }
    fn st128(&self, m: &mut Mem, a: u64, sz: u32, v: u128) -> R<()> { m.store(a, sz, v, false, !self.feat.vec16_atomic) }
    #[inline]
    fn rd(&self, m: &mut Mem, rm: &Rm, sz: u32, rex: bool) -> R<u64> {
        match rm { Rm::Reg(i) => Ok(self.getr(*i, sz, rex)), Rm::Mem(a) => self.ld(m, *a, sz) }
    }
    #[inline]
    fn wr(&mut self, m: &mut Mem, rm: &Rm, sz: u32, rex: bool, v: u64) -> R<()> {
        match rm { Rm::Reg(i) => { self.setr(*i, sz, rex, v); Ok(()) } Rm::Mem(a) => self.stw(m, *a, sz, v & mask(sz)) }
    }
    #[inline]
    fn flags_szp(&mut self, v: u64, sz: u32) {
        let v = v & mask(sz);
        self.zf = v == 0;
        self.sf = top(v, sz);
        self.pf = (v as u8).count_ones() & 1 == 0;
    }
    /// ALU op (no register write); returns result and the flags.
    #[inline]
    fn alu(&self, op: u8, a: u64, b: u64, sz: u32) -> (u64, [bool; 5]) {
        let mk = mask(sz);
        let (a, b) = (a & mk, b & mk);
        let (r, cf, of);
        match op {
            0 | 2 => {
                let c = (op == 2 && self.cf) as u64;
                let t = a as u128 + b as u128 + c as u128;
                r = t as u64 & mk;
                cf = t >> (sz * 8) != 0;
                of = top((a ^ r) & (b ^ r), sz);
            }
            3 | 5 | 7 => {
                let c = (op == 3 && self.cf) as u64;
                r = a.wrapping_sub(b).wrapping_sub(c) & mk;
                cf = (a as u128) < b as u128 + c as u128;
                of = top((a ^ b) & (a ^ r), sz);
            }
            1 => { r = a | b; cf = false; of = false; }
            4 => { r = a & b; cf = false; of = false; }
            _ => { r = a ^ b; cf = false; of = false; }
        }
        (r, [cf, (r as u8).count_ones() & 1 == 0, r == 0, top(r, sz), of])
    }
    #[inline]
    fn setf(&mut self, f: [bool; 5]) { self.cf = f[0]; self.pf = f[1]; self.zf = f[2]; self.sf = f[3]; self.of = f[4]; }
    fn cond(&self, c: u8) -> bool {
        let v = match c >> 1 {
            0 => self.of,
            1 => self.cf,
            2 => self.zf,
            3 => self.cf || self.zf,
            4 => self.sf,
            5 => self.pf,
            6 => self.sf != self.of,
            _ => self.zf || self.sf != self.of,
        };
        v != (c & 1 != 0)
    }
    fn push(&mut self, m: &mut Mem, v: u64) -> R<()> {
        let sz = if self.is64 { 8 } else { 4 };
        let sp = self.r[4].wrapping_sub(sz) & self.amask();
        self.stw(m, sp, sz as u32, v & self.amask())?;
        self.r[4] = sp;
        Ok(())
    }
    fn popv(&mut self, m: &mut Mem) -> R<u64> {
        let sz = if self.is64 { 8 } else { 4 };
        let v = self.ld(m, self.r[4], sz as u32)?;
        Ok(v)
    }
    fn popadj(&mut self) { let sz = if self.is64 { 8 } else { 4 }; self.r[4] = self.r[4].wrapping_add(sz) & self.amask(); }

    pub fn step(&mut self, m: &mut Mem) -> R<()> {
        let mut buf = [0u8; 16];
        match m.fetch(self.pc, 15) {
            Some(s) => buf[..s.len()].copy_from_slice(s),
            None => return Err(Trap::Fault(self.pc, "instruction fetch outside code")),
        }
        let mut d = D { b: &buf, i: 0, rex: 0, hi: 0, opsz: false, rep: 0, lock: false, adsz: false, is64: self.is64, pc: self.pc };
        let mut op;
        loop {
            op = d.u8();
            match op {
                0x66 => d.opsz = true,
                0xf2 | 0xf3 => d.rep = op,
                0xf0 => d.lock = true,
                0x67 => d.adsz = true,
                0x26 | 0x2e | 0x36 | 0x3e => {}
                0x64 | 0x65 => return Err(self.unk(&d, "segment override")),
                0x40..=0x4f if self.is64 => {
                    d.rex = op;
                    op = d.u8();
                    break;
                }
                _ => break,
            }
            if d.i > 14 { return Err(self.unk(&d, "prefixes")); }
        }
        let rex = d.rex != 0;
        let next;
        match op {
            0x0f => return self.two(m, d),
            0xc4 | 0xc5 if self.is64 || buf[d.i & 15] >> 6 == 3 => return self.vex(m, d, op),
            0x00..=0x3f if op & 7 < 6 => {
                let k = op >> 3;
                let sz = if op & 1 == 0 { 1 } else { d.osz() };
                match op & 7 {
                    0 | 1 => {
                        let (reg, rm) = self.modrm(&mut d, 0);
                        let b = self.getr(reg, sz, rex);
                        self.alu_rm(m, &d, k, &rm, b, sz, rex)?;
                    }
                    2 | 3 => {
                        let (reg, rm) = self.modrm(&mut d, 0);
                        let b = self.rd(m, &rm, sz, rex)?;
                        let (r, f) = self.alu(k, self.getr(reg, sz, rex), b, sz);
                        self.setf(f);
                        if k != 7 { self.setr(reg, sz, rex, r); }
                    }
                    _ => {
                        let b = d.imm(sz);
                        let (r, f) = self.alu(k, self.getr(0, sz, true), b, sz);
                        self.setf(f);
                        if k != 7 { self.setr(0, sz, true, r); }
                    }
                }
            }
            0x40..=0x4f => {
                // 32-bit inc/dec
                let sz = d.osz();
                let i = (op & 7) as usize;
                let c = self.cf;
                let (r, f) = self.alu(if op < 0x48 { 0 } else { 5 }, self.getr(i, sz, true), 1, sz);
                self.setf(f);
                self.cf = c;
                self.setr(i, sz, true, r);
            }
            0x50..=0x57 => { let i = (op & 7) as usize | if d.rex & 1 != 0 { 8 } else { 0 }; self.push(m, self.r[i])?; }
            0x58..=0x5f => {
                let i = (op & 7) as usize | if d.rex & 1 != 0 { 8 } else { 0 };
                let v = self.popv(m)?;
                self.popadj();
                self.r[i] = v;
            }
            0x63 if self.is64 => {
                let (reg, rm) = self.modrm(&mut d, 0);
                let v = self.rd(m, &rm, 4, rex)?;
                let sz = d.osz();
                self.setr(reg, sz, rex, v as i32 as i64 as u64);
            }
            0x68 => { let v = d.i32() as u64; self.push(m, v)?; }
            0x6a => { let v = d.i8() as u64; self.push(m, v)?; }
            0x69 | 0x6b => {
                let sz = d.osz();
                let (reg, rm) = self.modrm(&mut d, if op == 0x6b { 1 } else if sz == 2 { 2 } else { 4 });
                let a = sext(self.rd(m, &rm, sz, rex)?, sz) as i128;
                let b = if op == 0x6b { d.i8() } else { d.imm(sz) as i64 } as i128;
                self.imul(reg, a, b, sz);
            }
            0x70..=0x7f => {
                let o = d.i8();
                next = self.pc.wrapping_add(d.i as u64);
                self.pc = if self.cond(op & 15) { next.wrapping_add(o as u64) & self.amask() } else { next };
                return Ok(());
            }
            0x80 | 0x81 | 0x83 => {
                let sz = if op == 0x80 { 1 } else { d.osz() };
                let il = if op == 0x81 { sz.min(4) as usize } else { 1 };
                let (k, rm) = self.modrm(&mut d, il);
                let b = if op == 0x81 { d.imm(sz) } else { d.i8() as u64 };
                self.alu_rm(m, &d, (k & 7) as u8, &rm, b, sz, rex)?;
            }
            0x84 | 0x85 => {
                let sz = if op == 0x84 { 1 } else { d.osz() };
                let (reg, rm) = self.modrm(&mut d, 0);
                let v = self.rd(m, &rm, sz, rex)?;
                let (_, f) = self.alu(4, v, self.getr(reg, sz, rex), sz);
                self.setf(f);
            }
            0x86 | 0x87 => {
                let sz = if op == 0x86 { 1 } else { d.osz() };
                let (reg, rm) = self.modrm(&mut d, 0);
                let v = self.getr(reg, sz, rex);
                match rm {
                    Rm::Reg(i) => { let o = self.getr(i, sz, rex); self.setr(i, sz, rex, v); self.setr(reg, sz, rex, o); }
                    Rm::Mem(a) => { let o = m.rmw(a, sz, true, true, &mut |_| Some(v as u128))?; self.setr(reg, sz, rex, o as u64); }
                }
            }
            0x88 | 0x89 => {
                let sz = if op == 0x88 { 1 } else { d.osz() };
                let (reg, rm) = self.modrm(&mut d, 0);
                let v = self.getr(reg, sz, rex);
                self.wr(m, &rm, sz, rex, v)?;
            }
            0x8a | 0x8b => {
                let sz = if op == 0x8a { 1 } else { d.osz() };
                let (reg, rm) = self.modrm(&mut d, 0);
                let v = self.rd(m, &rm, sz, rex)?;
                self.setr(reg, sz, rex, v);
            }
            0x8d => {
                let (reg, rm) = self.modrm(&mut d, 0);
                if let Rm::Mem(a) = rm { let sz = d.osz(); self.setr(reg, sz, rex, a); } else { return Err(self.unk(&d, "lea reg")); }
            }
            0x8f => {
                let (_, rm) = self.modrm(&mut d, 0);
                let v = self.popv(m)?;
                let sz = if self.is64 { 8 } else { 4 };
                self.wr(m, &rm, sz, rex, v)?;
                self.popadj();
            }
            0x90 if d.rex & 1 == 0 => { if d.rep == 0xf3 { m.pause(); } }
            0x90..=0x97 => {
                let i = (op & 7) as usize | if d.rex & 1 != 0 { 8 } else { 0 };
                let sz = d.osz();
                let (a, b) = (self.getr(0, sz, true), self.getr(i, sz, true));
                self.setr(0, sz, true, b);
                self.setr(i, sz, true, a);
            }
            0x98 => match d.osz() {
                2 => { let v = self.r[0] as i8 as u64; self.setr(0, 2, true, v) }
                4 => { let v = self.r[0] as i16 as u64; self.setr(0, 4, true, v) }
                _ => self.r[0] = self.r[0] as i32 as i64 as u64,
            },
            0x99 => {
                let sz = d.osz();
                let s = if top(self.r[0] & mask(sz), sz) { !0 } else { 0 };
                self.setr(2, sz, true, s);
            }
            0xa8 | 0xa9 => {
                let sz = if op == 0xa8 { 1 } else { d.osz() };
                let b = d.imm(sz);
                let (_, f) = self.alu(4, self.getr(0, sz, true), b, sz);
                self.setf(f);
            }
            0xa0..=0xa3 => {
                let sz = if op & 1 == 0 { 1 } else { d.osz() };
                let a = if self.is64 { d.u64() } else { d.i32() as u32 as u64 };
                if op < 0xa2 { let v = self.ld(m, a, sz)?; self.setr(0, sz, true, v); } else { let v = self.getr(0, sz, true); self.stw(m, a, sz, v)?; }
            }
            0xa4 | 0xa5 | 0xaa | 0xab => {
                let sz = if op & 1 == 0 { 1 } else { d.osz() };
                if self.df { return Err(self.unk(&d, "df")); }
                if d.rep != 0 && self.r[1] & self.amask() == 0 {
                } else {
                    let v = if op < 0xaa { self.ld(m, self.r[6], sz)? } else { self.getr(0, sz, true) };
                    self.stw(m, self.r[7], sz, v)?;
                    if op < 0xaa { self.r[6] = self.r[6].wrapping_add(sz as u64) & self.amask(); }
                    self.r[7] = self.r[7].wrapping_add(sz as u64) & self.amask();
                    if d.rep != 0 { self.r[1] = self.r[1].wrapping_sub(1) & self.amask(); return Ok(()); }
                }
            }
            0xb0..=0xb7 => { let i = (op & 7) as usize | if d.rex & 1 != 0 { 8 } else { 0 }; let v = d.u8(); self.setr(i, 1, rex, v as u64); }
            0xb8..=0xbf => {
                let i = (op & 7) as usize | if d.rex & 1 != 0 { 8 } else { 0 };
                let v = if d.w() { d.u64() } else if d.opsz { d.u16() } else { d.i32() as u32 as u64 };
                let sz = d.osz();
                self.setr(i, sz, true, v);
            }
            0xc0 | 0xc1 | 0xd0..=0xd3 => {
                let sz = if op & 1 == 0 { 1 } else { d.osz() };
                let (k, rm) = self.modrm(&mut d, (op < 0xd0) as usize);
                let n = if op < 0xd0 { d.u8() } else if op < 0xd2 { 1 } else { self.r[1] as u8 };
                self.shift(m, &d, (k & 7) as u8, &rm, n, sz, rex)?;
            }
            0xc2 | 0xc3 => {
                let v = self.popv(m)?;
                let n = if op == 0xc2 { d.u16() } else { 0 };
                self.popadj();
                self.r[4] = self.r[4].wrapping_add(n) & self.amask();
                self.pc = v;
                return Ok(());
            }
            0xc6 | 0xc7 => {
                let sz = if op == 0xc6 { 1 } else { d.osz() };
                let (_, rm) = self.modrm(&mut d, sz.min(4) as usize);
                let v = d.imm(sz);
                self.wr(m, &rm, sz, rex, v)?;
            }
            0xc9 => {
                let bp = self.r[5];
                let sz = if self.is64 { 8 } else { 4 };
                let v = self.ld(m, bp, sz)?;
                self.r[4] = bp.wrapping_add(sz as u64) & self.amask();
                self.r[5] = v;
            }
            0xcc => return Err(Trap::Abort(self.pc, "int3")),
            0xd8..=0xdf => self.x87(m, &mut d, op)?,
            0xe8 => {
                let o = d.i32();
                let nx = self.pc.wrapping_add(d.i as u64);
                self.push(m, nx)?;
                self.pc = nx.wrapping_add(o as u64) & self.amask();
                return Ok(());
            }
            0xe9 | 0xeb => {
                let o = if op == 0xe9 { d.i32() } else { d.i8() };
                self.pc = self.pc.wrapping_add(d.i as u64).wrapping_add(o as u64) & self.amask();
                return Ok(());
            }
            0xf6 | 0xf7 => {
                let sz = if op == 0xf6 { 1 } else { d.osz() };
                // peek the /r field for the immediate length
                let k = buf[d.i & 15] >> 3 & 7;
                let (_, rm) = self.modrm(&mut d, if k < 2 { sz.min(4) as usize } else { 0 });
                match k {
                    0 | 1 => {
                        let v = self.rd(m, &rm, sz, rex)?;
                        let b = d.imm(sz);
                        let (_, f) = self.alu(4, v, b, sz);
                        self.setf(f);
                    }
                    2 => {
                        if d.lock {
                            if let Rm::Mem(a) = rm { m.rmw(a, sz, true, true, &mut |o| Some(!o & mask(sz) as u128))?; } else { return Err(self.unk(&d, "lock not")); }
                        } else {
                            let v = self.rd(m, &rm, sz, rex)?;
                            self.wr(m, &rm, sz, rex, !v)?;
                        }
                    }
                    3 => {
                        let v;
                        if d.lock {
                            if let Rm::Mem(a) = rm { v = m.rmw(a, sz, true, true, &mut |o| Some((o as u64).wrapping_neg() as u128 & mask(sz) as u128))? as u64; } else { return Err(self.unk(&d, "lock neg")); }
                        } else {
                            v = self.rd(m, &rm, sz, rex)?;
                            self.wr(m, &rm, sz, rex, v.wrapping_neg())?;
                        }
                        let (_, f) = self.alu(5, 0, v, sz);
                        self.setf(f);
                    }
                    4 | 5 => {
                        let v = self.rd(m, &rm, sz, rex)?;
                        let a = self.getr(0, sz, true);
                        let p: u128 = if k == 4 { v as u128 * a as u128 } else { (sext(v, sz) as i128 * sext(a, sz) as i128) as u128 };
                        let (lo, hi) = (p as u64 & mask(sz), (p >> (sz * 8)) as u64 & mask(sz));
                        if sz == 1 { self.setr(0, 2, true, (p & 0xffff) as u64); } else { self.setr(0, sz, true, lo); self.setr(2, sz, true, hi); }
                        self.cf = if k == 4 { hi != 0 } else { hi != if top(lo, sz) { mask(sz) } else { 0 } };
                        self.of = self.cf;
                    }
                    _ => {
                        let v = self.rd(m, &rm, sz, rex)?;
                        let n: u128 = if sz == 1 { (self.r[0] & 0xffff) as u128 } else { (self.getr(2, sz, true) as u128) << (sz * 8) | self.getr(0, sz, true) as u128 };
                        if v == 0 { return Err(Trap::Abort(self.pc, "divide error")); }
                        let (q, r) = if k == 6 { (n / v as u128, n % v as u128) } else {
                            let bits = sz * 16;
                            let nn = if bits == 128 { n as i128 } else { ((n << (128 - bits)) as i128) >> (128 - bits) };
                            let dv = sext(v, sz) as i128;
                            (nn.wrapping_div(dv) as u128, nn.wrapping_rem(dv) as u128)
                        };
                        if sz == 1 { self.setr(0, 2, true, (q as u64 & 0xff) | (r as u64 & 0xff) << 8); } else { self.setr(0, sz, true, q as u64); self.setr(2, sz, true, r as u64); }
                    }
                }
            }
            0xf8 => self.cf = false,
            0xf9 => self.cf = true,
            0xfc => self.df = false,
            0xfe | 0xff => {
                let sz = if op == 0xfe { 1 } else { d.osz() };
                let (k, rm) = self.modrm(&mut d, 0);
                match k & 7 {
                    0 | 1 => {
                        let o = if k & 7 == 0 { 0 } else { 5 };
                        let c = self.cf;
                        self.alu_rm(m, &d, o, &rm, 1, sz, rex)?;
                        self.cf = c;
                    }
                    2 => {
                        let psz = if self.is64 { 8 } else { 4 };
                        let t = self.rd(m, &rm, psz, rex)?;
                        let nx = self.pc.wrapping_add(d.i as u64);
                        self.push(m, nx)?;
                        self.pc = t;
                        return Ok(());
                    }
                    4 => {
                        let psz = if self.is64 { 8 } else { 4 };
                        self.pc = self.rd(m, &rm, psz, rex)?;
                        return Ok(());
                    }
                    6 => {
                        let psz = if self.is64 { 8 } else { 4 };
                        let v = self.rd(m, &rm, psz, rex)?;
                        self.push(m, v)?;
                    }
                    _ => return Err(self.unk(&d, "grp5")),
                }
            }
            _ => return Err(self.unk(&d, "opcode")),
        }
        if d.i > 15 { return Err(self.unk(&d, "length")); }
        self.pc = self.pc.wrapping_add(d.i as u64);
        Ok(())
    }
    fn unk(&self, d: &D, what: &str) -> Trap {
        let s: Vec<String> = d.b.iter().take(12).map(|b| format!("{b:02x}")).collect();
        Trap::Unknown(self.pc, format!("{what}: {}", s.join(" ")))
    }
    fn alu_rm(&mut self, m: &mut Mem, d: &D, k: u8, rm: &Rm, b: u64, sz: u32, rex: bool) -> R<()> {
        match rm {
            Rm::Mem(a) if d.lock => {
                let this = &*self;
                let o = m.rmw(*a, sz, true, true, &mut |o| Some(this.alu(k, o as u64, b, sz).0 as u128))?;
                let (_, f) = self.alu(k, o as u64, b, sz);
                self.setf(f);
            }
            _ => {
                let a = self.rd(m, rm, sz, rex)?;
                let (r, f) = self.alu(k, a, b, sz);
                if k != 7 { self.wr(m, rm, sz, rex, r)?; }
                self.setf(f);
            }
        }
        Ok(())
    }
    fn imul(&mut self, reg: usize, a: i128, b: i128, sz: u32) {
        let p = a * b;
        let r = p as u64 & mask(sz);
        self.cf = p != sext(r, sz) as i128;
        self.of = self.cf;
        self.setr(reg, sz, true, r);
    }
    fn shift(&mut self, m: &mut Mem, d: &D, k: u8, rm: &Rm, n: u8, sz: u32, rex: bool) -> R<()> {
        let n = (n & if sz == 8 { 63 } else { 31 }) as u32;
        let bits = sz * 8;
        let v = self.rd(m, rm, sz, rex)? & mask(sz);
        if n == 0 { return Ok(()); }
        let (r, cf, of, szp);
        match k {
            0 => { let c = n % bits; r = if c == 0 { v } else { (v << c | v >> (bits - c)) & mask(sz) }; cf = r & 1 != 0; of = top(r, sz) != cf; szp = false; }
            1 => { let c = n % bits; r = if c == 0 { v } else { (v >> c | v << (bits - c)) & mask(sz) }; cf = top(r, sz); of = top(r, sz) != top(r << 1 & mask(sz), sz); szp = false; }
            4 | 6 => { let w = (v as u128) << n; r = w as u64 & mask(sz); cf = w >> bits & 1 != 0; of = top(r, sz) != cf; szp = true; }
            5 => { r = if n >= bits { 0 } else { v >> n }; cf = n <= bits && v >> (n - 1) & 1 != 0; of = top(v, sz); szp = true; }
            7 => { let s = sext(v, sz); r = (s >> n.min(63)) as u64 & mask(sz); cf = s >> (n - 1).min(63) & 1 != 0; of = false; szp = true; }
            _ => return Err(self.unk(d, "rcl/rcr")),
        }
        self.wr(m, rm, sz, rex, r)?;
        self.cf = cf;
        self.of = of;
        if szp { self.flags_szp(r, sz); }
        Ok(())
    }
    fn two(&mut self, m: &mut Mem, mut d: D) -> R<()> {
        let op = d.u8();
        let rex = d.rex != 0;
        match op {
            0x01 => {
                let b = d.u8();
                if b == 0xd0 {
                    if !self.feat.osxsave { return Err(Trap::Illegal(self.pc, "xgetbv without OSXSAVE".into())); }
                    self.setr(0, 4, true, self.feat.xcr0 & 0xffff_ffff);
                    self.setr(2, 4, true, self.feat.xcr0 >> 32);
                } else { return Err(self.unk(&d, "0f01")); }
            }
            0x0b => return Err(Trap::Abort(self.pc, "ud2")),
            0x0d | 0x18..=0x1f => { self.modrm(&mut d, 0); }
            0x31 => { self.setr(0, 4, true, m.now & 0xffff_ffff); self.setr(2, 4, true, 0); }
            0x40..=0x4f => {
                let (reg, rm) = self.modrm(&mut d, 0);
                let sz = d.osz();
                let v = self.rd(m, &rm, sz, rex)?;
                if self.cond(op & 15) { self.setr(reg, sz, rex, v); } else if sz == 4 { let o = self.r[reg]; self.setr(reg, 4, rex, o); }
            }
            0x80..=0x8f => {
                let o = d.i32();
                let nx = self.pc.wrapping_add(d.i as u64);
                self.pc = if self.cond(op & 15) { nx.wrapping_add(o as u64) & self.amask() } else { nx };
                return Ok(());
            }
            0x90..=0x9f => {
                let (_, rm) = self.modrm(&mut d, 0);
                let v = self.cond(op & 15) as u64;
                self.wr(m, &rm, 1, rex, v)?;
            }
            0xa2 => self.cpuid(),
            0xa3 | 0xab | 0xb3 | 0xbb | 0xba => {
                let sz = d.osz();
                let (mut k, rm) = self.modrm(&mut d, (op == 0xba) as usize);
                let off: i64;
                let imm = op == 0xba;
                if imm { k &= 7; off = d.u8() as i64; if k < 4 { return Err(self.unk(&d, "0fba")); } } else {
                    off = sext(self.getr(k, sz, rex), sz);
                    k = match op { 0xa3 => 4, 0xab => 5, 0xb3 => 6, _ => 7 };
                }
                let bits = sz as i64 * 8;
                let bit = off.rem_euclid(bits) as u64;
                let f = |v: u64| match k { 5 => v | 1 << bit, 6 => v & !(1 << bit), 7 => v ^ 1 << bit, _ => v };
                let rm = match rm { Rm::Mem(a) if !imm => Rm::Mem((a as i64).wrapping_add(off.div_euclid(bits) * sz as i64) as u64 & self.amask()), x => x };
                let v;
                match &rm {
                    Rm::Mem(a) if d.lock && k != 4 => v = m.rmw(*a, sz, true, true, &mut |o| Some(f(o as u64) as u128))? as u64,
                    _ => { v = self.rd(m, &rm, sz, rex)?; if k != 4 { self.wr(m, &rm, sz, rex, f(v))?; } }
                }
                self.cf = v >> bit & 1 != 0;
            }
            0xa4 | 0xa5 | 0xac | 0xad => {
                let sz = d.osz();
                let (reg, rm) = self.modrm(&mut d, (op & 1 == 0) as usize);
                let n = if op & 1 == 0 { d.u8() } else { self.r[1] as u8 } & if sz == 8 { 63 } else { 31 };
                let a = self.rd(m, &rm, sz, rex)?;
                let b = self.getr(reg, sz, rex);
                if n != 0 {
                    let bits = sz * 8;
                    let n = n as u32;
                    if n >= bits { return Err(self.unk(&d, "shld count")); }
                    let (r, cf) = if op < 0xa8 { ((a << n | b >> (bits - n)) & mask(sz), a >> (bits - n) & 1 != 0) } else { ((a >> n | b << (bits - n)) & mask(sz), a >> (n - 1) & 1 != 0) };
                    self.wr(m, &rm, sz, rex, r)?;
                    self.flags_szp(r, sz);
                    self.cf = cf;
                    self.of = top(a, sz) != top(r, sz);
                }
            }
            0xae => {
                let k = d.b[d.i & 15];
                match k {
                    0xf0..=0xf7 => { d.i += 1; m.fence(true, true, true, true)?; }
                    0xe8..=0xef => { d.i += 1; m.fence(true, false, true, true)?; }
                    0xf8..=0xff => { d.i += 1; m.fence(false, true, false, true)?; }
                    _ => return Err(self.unk(&d, "0fae")),
                }
            }
            0xaf => {
                let (reg, rm) = self.modrm(&mut d, 0);
                let sz = d.osz();
                let b = sext(self.rd(m, &rm, sz, rex)?, sz) as i128;
                let a = sext(self.getr(reg, sz, rex), sz) as i128;
                self.imul(reg, a, b, sz);
            }
            0xb0 | 0xb1 => {
                let sz = if op == 0xb0 { 1 } else { d.osz() };
                let (reg, rm) = self.modrm(&mut d, 0);
                let e = self.getr(0, sz, true);
                let n = self.getr(reg, sz, rex);
                let old;
                match &rm {
                    Rm::Mem(a) if d.lock => old = m.rmw(*a, sz, true, true, &mut |o| if o == e as u128 { Some(n as u128) } else { None })? as u64,
                    _ => { old = self.rd(m, &rm, sz, rex)?; if old == e { self.wr(m, &rm, sz, rex, n)?; } }
                }
                let (_, f) = self.alu(7, e, old, sz);
                self.setf(f);
                if old != e { self.setr(0, sz, true, old); }
            }
            0xb6 | 0xb7 | 0xbe | 0xbf => {
                let (reg, rm) = self.modrm(&mut d, 0);
                let s = if op & 1 == 0 { 1 } else { 2 };
                let v = self.rd(m, &rm, s, rex)?;
                let sz = d.osz();
                self.setr(reg, sz, rex, if op < 0xb8 { v } else { sext(v, s) as u64 });
            }
            0xb8 if d.rep == 0xf3 => {
                let (reg, rm) = self.modrm(&mut d, 0);
                let sz = d.osz();
                let v = self.rd(m, &rm, sz, rex)?;
                self.setr(reg, sz, rex, v.count_ones() as u64);
                self.setf([false, false, v == 0, false, false]);
            }
            0xbc | 0xbd => {
                let (reg, rm) = self.modrm(&mut d, 0);
                let sz = d.osz();
                let v = self.rd(m, &rm, sz, rex)?;
                // tzcnt/lzcnt decode as bsf/bsr on the baseline CPU; results agree for non-zero tzcnt
                if v == 0 {
                    if d.rep == 0xf3 && op == 0xbc { /* bsf on zero: destination unchanged */ }
                    self.zf = true;
                } else {
                    self.zf = false;
                    let r = if op == 0xbc { v.trailing_zeros() } else { 63 - v.leading_zeros() };
                    self.setr(reg, sz, rex, r as u64);
                }
            }
            0xc0 | 0xc1 => {
                let sz = if op == 0xc0 { 1 } else { d.osz() };
                let (reg, rm) = self.modrm(&mut d, 0);
                let b = self.getr(reg, sz, rex);
                let old;
                match &rm {
                    Rm::Mem(a) if d.lock => old = m.rmw(*a, sz, true, true, &mut |o| Some((o as u64).wrapping_add(b) as u128 & mask(sz) as u128))? as u64,
                    _ => { old = self.rd(m, &rm, sz, rex)?; self.wr(m, &rm, sz, rex, old.wrapping_add(b))?; }
                }
                let (_, f) = self.alu(0, old, b, sz);
                self.setf(f);
                self.setr(reg, sz, rex, old);
            }
            0xc7 => {
                let (k, rm) = self.modrm(&mut d, 0);
                if k & 7 != 1 { return Err(self.unk(&d, "0fc7")); }
                let a = match rm { Rm::Mem(a) => a, _ => return Err(self.unk(&d, "0fc7 reg")) };
                let (sz, h) = if d.w() { (16u32, 64) } else { (8, 32) };
                if sz == 16 && !self.feat.cx16 { return Err(Trap::Illegal(self.pc, "cmpxchg16b on a CPU without CX16".into())); }
                let hm = if h == 64 { u64::MAX } else { 0xffff_ffff };
                let e = (self.r[2] & hm) as u128 * (1u128 << h) + (self.r[0] & hm) as u128;
                let n = (self.r[1] & hm) as u128 * (1u128 << h) + (self.r[3] & hm) as u128;
                let old;
                if d.lock {
                    old = m.rmw(a, sz, true, true, &mut |o| if o == e { Some(n) } else { None })?;
                } else {
                    if a & (sz as u64 - 1) != 0 && sz == 16 { return Err(Trap::Fault(a, "misaligned cmpxchg16b")); }
                    old = m.load(a, sz, LK { acq: 0, tear: true, ..LK::default() })?;
                    if old == e { m.store(a, sz, n, false, true)?; }
                }
                self.zf = old == e;
                if old != e { self.setr(0, if h == 64 { 8 } else { 4 }, true, old as u64 & hm); self.setr(2, if h == 64 { 8 } else { 4 }, true, (old >> h) as u64 & hm); }
            }
            0xc8..=0xcf => {
                let i = (op & 7) as usize | if d.rex & 1 != 0 { 8 } else { 0 };
                if d.w() { self.r[i] = self.r[i].swap_bytes(); } else { self.r[i] = (self.r[i] as u32).swap_bytes() as u64; }
            }
            _ => { self.sse(m, &mut d, op, None)?; }
        }
        self.pc = self.pc.wrapping_add(d.i as u64);
        Ok(())
    }
    fn cpuid(&mut self) {
        self.cpuids += 1;
        let leaf = self.r[0] as u32;
        let f = self.feat;
        let (mut a, mut b, mut c, mut dd) = (0u32, 0u32, 0u32, 0u32);
        let w = |i: usize| u32::from_le_bytes([f.vendor[i], f.vendor[i + 1], f.vendor[i + 2], f.vendor[i + 3]]);
        match leaf {
            0 => { a = f.max_leaf; b = w(0); dd = w(4); c = w(8); }
            1 if f.max_leaf >= 1 => {
                a = 0x000906ea;
                b = 0x00100800;
                dd = 0x0788_8179 | 1 << 8 | 1 << 25 | 1 << 26;
                c = 1 | 1 << 9;
                if f.cx16 && !self.hide_cx16 { c |= 1 << 13; }
                if f.osxsave { c |= 1 << 26 | 1 << 27; }
                if f.avx { c |= 1 << 28; }
            }
            0x8000_0000 => { a = 0x8000_0008; }
            _ => {}
        }
        self.setr(0, 4, true, a as u64);
        self.setr(3, 4, true, b as u64);
        self.setr(1, 4, true, c as u64);
        self.setr(2, 4, true, dd as u64);
    }
    fn vex(&mut self, m: &mut Mem, mut d: D, op: u8) -> R<()> {
        let ok = self.feat.avx && self.feat.osxsave && self.feat.xcr0 & 6 == 6;
        let (mmap, b2);
        if op == 0xc5 {
            let b = d.u8();
            d.rex = 0x40 | if b & 0x80 == 0 { 4 } else { 0 };
            mmap = 1;
            b2 = b;
        } else {
            let b = d.u8();
            d.rex = 0x40 | if b & 0x80 == 0 { 4 } else { 0 } | if b & 0x40 == 0 { 2 } else { 0 } | if b & 0x20 == 0 { 1 } else { 0 };
            mmap = b & 31;
            b2 = d.u8();
            if b2 & 0x80 != 0 { d.rex |= 8; }
        }
        if !self.is64 { d.rex &= 8; }
        let vvvv = (!b2 >> 3 & 15) as usize;
        let l256 = b2 & 4 != 0;
        match b2 & 3 { 1 => d.opsz = true, 2 => d.rep = 0xf3, 3 => d.rep = 0xf2, _ => {} }
        if !ok { return Err(Trap::Illegal(self.pc, "AVX instruction without AVX and OS support".into())); }
        let o = d.u8();
        let i0 = d.i;
        let rmb = d.b[i0.min(15)];
        let reg = (rmb >> 3 & 7) as usize | (d.rex as usize & 4) << 1;
        match (mmap, o) {
            (1, 0x77) => { self.xh = [0; 16]; if l256 { self.x = [0; 16]; } }
            // lane-wise operations: once per half
            (1, 0x10 | 0x11 | 0x28 | 0x29 | 0x6f | 0x7f | 0x54..=0x59 | 0x5c..=0x5f | 0x51 | 0x14 | 0x15 | 0xc6 | 0xc2) if l256 => {
                if d.rep == 0xf2 || d.rep == 0xf3 && !matches!(o, 0x6f | 0x7f) { return Err(self.unk(&d, "VEX.256 scalar")); }
                let lo = self.x;
                d.hi = 0;
                self.sse(m, &mut d, o, Some(vvvv))?;
                d.i = i0;
                d.hi = 16;
                let nlo = self.x;
                self.x = self.xh;
                let r = self.sse(m, &mut d, o, Some(vvvv));
                // (a half that has to wait leaves the registers as they were: the instruction runs again)
                if r.is_err() { self.x = lo; return r; }
                self.xh = self.x;
                self.x = nlo;
            }
            (3, 0x18) if l256 => {
                let (reg, rm) = self.modrm(&mut d, 1);
                let v = self.xrd(m, &rm, 16)?;
                let (l, h) = (self.x[vvvv], self.xh[vvvv]);
                let hi = d.u8() & 1 != 0;
                self.x[reg] = if hi { l } else { v };
                self.xh[reg] = if hi { v } else { h };
            }
            (3, 0x19) if l256 => {
                let (reg, rm) = self.modrm(&mut d, 1);
                let v = if d.u8() & 1 != 0 { self.xh[reg] } else { self.x[reg] };
                match rm { Rm::Reg(k) => { self.x[k] = v; self.xh[k] = 0; } Rm::Mem(a) => self.st128(m, a, 16, v)? }
            }
            (2, 0x1a) if l256 => {
                let (reg, rm) = self.modrm(&mut d, 0);
                let v = self.xrd(m, &rm, 16)?;
                self.x[reg] = v;
                self.xh[reg] = v;
            }
            _ if l256 => return Err(self.unk(&d, "VEX.256")),
            (1, _) => {
                self.sse(m, &mut d, o, Some(vvvv))?;
                match o {
                    0x11 | 0x29 | 0x7f | 0xd6 => if rmb >> 6 == 3 { self.xh[(rmb & 7) as usize | (d.rex as usize & 1) << 3] = 0; },
                    0x13 | 0x17 | 0x2e | 0x2f | 0x50 | 0x7e if d.rep != 0xf3 => {}
                    0x71..=0x73 => self.xh[vvvv] = 0,
                    0xc5 | 0xd7 | 0xe7 | 0x2b | 0x2c | 0x2d => {}
                    _ => self.xh[reg] = 0,
                }
            }
            (2 | 3, _) => {
                self.sse3x(m, &mut d, mmap, o, Some(vvvv))?;
                if !(mmap == 3 && matches!(o, 0x14..=0x17) || mmap == 2 && matches!(o, 0x17 | 0xf0..=0xff)) { self.xh[reg] = 0; }
            }
            _ => return Err(self.unk(&d, "VEX map")),
        }
        self.pc = self.pc.wrapping_add(d.i as u64);
        Ok(())
    }
    fn xrd(&self, m: &mut Mem, rm: &Rm, sz: u32) -> R<u128> {
        match rm { Rm::Reg(i) => Ok(if sz == 16 { self.x[*i] } else { self.x[*i] & ((1u128 << (sz * 8)) - 1) }), Rm::Mem(a) => self.ld128(m, *a, sz) }
    }
    fn sse3x(&mut self, m: &mut Mem, d: &mut D, map: u8, op: u8, v: Option<usize>) -> R<()> {
        let (reg, rm) = self.modrm(d, (map == 3) as usize);
        match (map, op) {
            (3, 0x14) | (3, 0x16) if d.opsz => {
                let i = d.u8();
                let sz = if op == 0x14 { 1 } else if d.w() { 8 } else { 4 };
                let x = (self.x[reg] >> (sz * 8 * (i as u32 & (16 / sz - 1)))) as u64 & mask(sz);
                match rm { Rm::Reg(k) => self.setr(k, if sz == 8 { 8 } else { 4 }, true, x), Rm::Mem(a) => self.stw(m, a, sz, x)? }
            }
            (3, 0x22) | (3, 0x20) if d.opsz => {
                let sz = if op == 0x20 { 1 } else if d.w() { 8 } else { 4 };
                let x = self.rd(m, &rm, sz, true)? as u128;
                let i = d.u8() as u32 & (16 / sz - 1);
                let mk = (mask(sz) as u128) << (sz * 8 * i);
                self.x[reg] = self.x[v.unwrap_or(reg)] & !mk | x << (sz * 8 * i);
            }
            (3, 0x0e) if d.opsz => {
                let b = self.xrd(m, &rm, 16)?;
                let i = d.u8();
                let a = self.x[v.unwrap_or(reg)];
                let mut r = 0u128;
                for k in 0..8 { let s = if i >> k & 1 != 0 { b } else { a }; r |= s & (0xffffu128 << (16 * k)); }
                self.x[reg] = r;
            }
            (2, 0x17) if d.opsz => {
                let b = self.xrd(m, &rm, 16)?;
                let a = self.x[reg];
                self.setf([!a & b == 0, false, a & b == 0, false, false]);
            }
            (3, 0x4a) | (3, 0x4b) if d.opsz => {
                let b = self.xrd(m, &rm, 16)?;
                let k = self.x[(d.u8() >> 4) as usize & if self.is64 { 15 } else { 7 }];
                let a = self.x[v.unwrap_or(reg)];
                let w = if op == 0x4a { 32 } else { 64 };
                let mut r = 0u128;
                for i in 0..128 / w { let mk = ((1u128 << w) - 1) << (w * i); r |= if k >> (w * i + w - 1) & 1 != 0 { b & mk } else { a & mk }; }
                self.x[reg] = r;
            }
            (3, 0x17) if d.opsz => {
                let i = d.u8() as u32 & 3;
                let x = (self.x[reg] >> (32 * i)) as u64 & mask(4);
                match rm { Rm::Reg(k) => self.setr(k, 4, true, x), Rm::Mem(a) => self.stw(m, a, 4, x)? }
            }
            (3, 0x21) if d.opsz => {
                let b = match rm { Rm::Reg(k) => { let i = d.u8(); (self.x[k] >> (32 * (i >> 6)), i) } Rm::Mem(a) => { let x = self.ld128(m, a, 4)?; (x, d.u8()) } };
                let (x, i) = (b.0 & 0xffff_ffff, b.1);
                let at = 32 * (i >> 4 & 3) as u32;
                let mut r = self.x[v.unwrap_or(reg)] & !(0xffff_ffffu128 << at) | x << at;
                for k in 0..4 { if i >> k & 1 != 0 { r &= !(0xffff_ffffu128 << (32 * k)); } }
                self.x[reg] = r;
            }
            (3, 0x0c) | (3, 0x0d) if d.opsz => {
                let b = self.xrd(m, &rm, 16)?;
                let i = d.u8();
                let a = self.x[v.unwrap_or(reg)];
                let w = if op == 0x0c { 32 } else { 64 };
                let mut r = 0u128;
                for k in 0..128 / w { let mk = ((1u128 << w) - 1) << (w * k); r |= if i >> k & 1 != 0 { b & mk } else { a & mk }; }
                self.x[reg] = r;
            }
            (3, 0x4c) if d.opsz => {
                let b = self.xrd(m, &rm, 16)?;
                let k = self.x[(d.u8() >> 4) as usize & if self.is64 { 15 } else { 7 }];
                let a = self.x[v.unwrap_or(reg)];
                let mut r = 0u128;
                for i in 0..16 { let mk = 0xffu128 << (8 * i); r |= if k >> (i * 8 + 7) & 1 != 0 { b & mk } else { a & mk }; }
                self.x[reg] = r;
            }
            (3, 0x0f) if d.opsz => {
                let b = self.xrd(m, &rm, 16)?;
                let i = d.u8() as u32 * 8;
                let a = self.x[v.unwrap_or(reg)];
                self.x[reg] = if i == 0 { b } else if i < 128 { b >> i | a << (128 - i) } else if i < 256 { a >> (i - 128) } else { 0 };
            }
            (2, 0x00) if d.opsz => {
                let b = self.xrd(m, &rm, 16)?;
                let a = self.x[v.unwrap_or(reg)];
                let mut r = 0u128;
                for i in 0..16 { let s = (b >> (8 * i)) as u8; if s & 0x80 == 0 { r |= (a >> (8 * (s & 15) as u32) & 0xff) << (8 * i); } }
                self.x[reg] = r;
            }
            (2, 0x18) if d.opsz => { let x = self.xrd(m, &rm, 4)? & 0xffff_ffff; self.x[reg] = x | x << 32 | x << 64 | x << 96; }
            (2, 0x29) | (2, 0x37) if d.opsz => {
                let b = self.xrd(m, &rm, 16)?;
                let a = self.x[v.unwrap_or(reg)];
                let f = |a: u128, b: u128| if if op == 0x29 { a as u64 == b as u64 } else { a as i64 > b as i64 } { u64::MAX as u128 } else { 0 };
                self.x[reg] = f(a, b) | f(a >> 64, b >> 64) << 64;
            }
            (2, 0x30..=0x35) | (2, 0x20..=0x25) if d.opsz => {
                let (from, to) = match op & 7 { 0 => (8, 16), 1 => (8, 32), 2 => (8, 64), 3 => (16, 32), 4 => (16, 64), _ => (32, 64) };
                let n = 128 / to;
                let b = self.xrd(m, &rm, n * from / 8)?;
                let mut r = 0u128;
                for i in 0..n {
                    let e = (b >> (i * from)) as u64 & ((1u64 << from) - 1);
                    let e = if op & 0x10 == 0 { ((e << (64 - from)) as i64 >> (64 - from)) as u64 & (u64::MAX >> (64 - to)) } else { e };
                    r |= (e as u128) << (i * to);
                }
                self.x[reg] = r;
            }
            (2, 0x38..=0x3f) | (2, 0x40) if d.opsz => {
                let b = self.xrd(m, &rm, 16)?;
                let a = self.x[v.unwrap_or(reg)];
                let w = match op { 0x38 | 0x3c => 8, 0x3a | 0x3e => 16, _ => 32u32 };
                let mk = (1u128 << w) - 1;
                let sx = |x: u128| (x as i64) << (64 - w) >> (64 - w);
                let mut r = 0u128;
                for i in 0..128 / w {
                    let (x, y) = (a >> (i * w) & mk, b >> (i * w) & mk);
                    let z = match op {
                        0x38 | 0x39 => if sx(x) < sx(y) { x } else { y },
                        0x3c | 0x3d => if sx(x) > sx(y) { x } else { y },
                        0x3a | 0x3b => x.min(y),
                        0x3e | 0x3f => x.max(y),
                        _ => x.wrapping_mul(y) & mk,
                    };
                    r |= z << (i * w);
                }
                self.x[reg] = r;
            }
            _ => return Err(self.unk(d, "0f38/0f3a")),
        }
        Ok(())
    }
    fn sse(&mut self, m: &mut Mem, d: &mut D, op: u8, vex: Option<usize>) -> R<()> {
        let pfx = if d.rep != 0 { d.rep } else if d.opsz { 0x66 } else { 0 };
        if vex.is_none() && (op == 0x38 || op == 0x3a) {
            return Err(Trap::Illegal(self.pc, "SSE3+ instruction outside the baseline".into()));
        }
        let immlen = matches!(op, 0x70..=0x73 | 0xc2 | 0xc4 | 0xc5 | 0xc6) as usize;
        let (reg, rm) = self.modrm(d, immlen);
        let src1 = vex.unwrap_or(reg);
        let al = |rm: &Rm| -> R<()> { if let Rm::Mem(a) = rm { if a & 15 != 0 { return Err(Trap::Fault(*a, "misaligned 16-byte SSE operand")); } } Ok(()) };
        const LO64: u128 = u64::MAX as u128;
        match (op, pfx) {
            // moves
            (0x10, 0) | (0x10, 0x66) | (0x6f, 0xf3) => { self.x[reg] = self.xrd(m, &rm, 16)?; }
            (0x28, 0) | (0x28, 0x66) | (0x6f, 0x66) => { al(&rm)?; self.x[reg] = self.xrd(m, &rm, 16)?; }
            (0x11, 0) | (0x11, 0x66) | (0x7f, 0xf3) | (0x29, 0) | (0x29, 0x66) | (0x7f, 0x66) | (0xe7, 0x66) | (0x2b, _) => {
                if !matches!(op, 0x11) && pfx != 0xf3 { al(&rm)?; }
                let v = self.x[reg];
                match rm { Rm::Reg(i) => self.x[i] = v, Rm::Mem(a) => self.st128(m, a, 16, v)? }
            }
            (0x10, 0xf3) | (0x10, 0xf2) => {
                let sz = if pfx == 0xf3 { 4 } else { 8 };
                let v = self.xrd(m, &rm, sz)?;
                self.x[reg] = match rm { Rm::Mem(_) => v, Rm::Reg(_) => { let mk = (1u128 << (sz * 8)) - 1; self.x[src1] & !mk | v } };
            }
            (0x11, 0xf3) | (0x11, 0xf2) => {
                let sz = if pfx == 0xf3 { 4 } else { 8 };
                let mk = (1u128 << (sz * 8)) - 1;
                let v = self.x[reg] & mk;
                match rm { Rm::Mem(a) => self.st128(m, a, sz, v)?, Rm::Reg(i) => self.x[i] = self.x[src1] & !mk | v }
            }
            (0x12, 0) | (0x12, 0x66) => {
                let v = match rm { Rm::Reg(i) => self.x[i] >> 64, Rm::Mem(a) => self.ld128(m, a, 8)? };
                self.x[reg] = self.x[src1] & !LO64 | v;
            }
            (0x16, 0) | (0x16, 0x66) => {
                let v = match rm { Rm::Reg(i) => self.x[i] & LO64, Rm::Mem(a) => self.ld128(m, a, 8)? };
                self.x[reg] = self.x[src1] & LO64 | v << 64;
            }
            (0x12, 0xf2) => { let x = self.xrd(m, &rm, 8)? & LO64; self.x[reg] = x | x << 64; }
            (0x12, 0xf3) | (0x16, 0xf3) => {
                let b = self.xrd(m, &rm, 16)?;
                let s = if op == 0x12 { 0 } else { 32 };
                let (l, h) = (b >> s & 0xffff_ffff, b >> (64 + s) & 0xffff_ffff);
                self.x[reg] = l | l << 32 | h << 64 | h << 96;
            }
            (0x13, 0) | (0x13, 0x66) | (0xd6, 0x66) => {
                let v = self.x[reg] & LO64;
                match rm { Rm::Mem(a) => self.st128(m, a, 8, v)?, Rm::Reg(i) => self.x[i] = v }
            }
            (0x17, 0) | (0x17, 0x66) => { let v = self.x[reg] >> 64; if let Rm::Mem(a) = rm { self.st128(m, a, 8, v)?; } }
            (0x7e, 0xf3) => { self.x[reg] = self.xrd(m, &rm, 8)?; }
            (0x6e, 0x66) => { let sz = if d.w() { 8 } else { 4 }; let v = self.rd(m, &rm, sz, true)?; self.x[reg] = v as u128; }
            (0x7e, 0x66) => { let sz = if d.w() { 8 } else { 4 }; let v = self.x[reg] as u64 & mask(sz); self.wr(m, &rm, sz, true, v)?; }
            (0xd7, 0x66) => { let mut v = 0; if let Rm::Reg(i) = rm { for k in 0..16 { v |= ((self.x[i] >> (8 * k + 7)) as u64 & 1) << k; } } self.setr(reg, 4, true, v); }
            (0x50, 0) | (0x50, 0x66) => {
                let w = if pfx == 0 { 32 } else { 64 };
                let mut v = 0;
                if let Rm::Reg(i) = rm { for k in 0..128 / w { v |= ((self.x[i] >> (w * k + w - 1)) as u64 & 1) << k; } }
                self.setr(reg, 4, true, v);
            }
            // logic
            (0x54, 0) | (0x54, 0x66) | (0xdb, 0x66) => { let b = self.xrd(m, &rm, 16)?; self.x[reg] = self.x[src1] & b; }
            (0x55, 0) | (0x55, 0x66) | (0xdf, 0x66) => { let b = self.xrd(m, &rm, 16)?; self.x[reg] = !self.x[src1] & b; }
            (0x56, 0) | (0x56, 0x66) | (0xeb, 0x66) => { let b = self.xrd(m, &rm, 16)?; self.x[reg] = self.x[src1] | b; }
            (0x57, 0) | (0x57, 0x66) | (0xef, 0x66) => { let b = self.xrd(m, &rm, 16)?; self.x[reg] = self.x[src1] ^ b; }
            // unpack / shuffle
            (0x60..=0x62, 0x66) | (0x6c, 0x66) | (0x68..=0x6a, 0x66) | (0x6d, 0x66) | (0x14, 0) | (0x15, 0) | (0x14, 0x66) | (0x15, 0x66) => {
                let b = self.xrd(m, &rm, 16)?;
                let a = self.x[src1];
                let (w, hi) = match (op, pfx) {
                    (0x60, _) => (8, false), (0x61, _) => (16, false), (0x62, _) => (32, false), (0x6c, _) => (64, false),
                    (0x68, _) => (8, true), (0x69, _) => (16, true), (0x6a, _) => (32, true), (0x6d, _) => (64, true),
                    (0x14, 0) => (32, false), (0x15, 0) => (32, true), (0x14, _) => (64, false), _ => (64, true),
                };
                let mk = (1u128 << w) - 1;
                let n = 64 / w;
                let sh = if hi { 64 } else { 0 };
                let mut r = 0u128;
                for i in 0..n { r |= (a >> (sh + i * w) & mk) << (2 * i * w) | (b >> (sh + i * w) & mk) << ((2 * i + 1) * w); }
                self.x[reg] = r;
            }
            (0x70, 0x66) => {
                let b = self.xrd(m, &rm, 16)?;
                let i = d.u8();
                let mut r = 0;
                for k in 0..4 { r |= (b >> (32 * (i >> (2 * k) & 3)) & 0xffff_ffff) << (32 * k); }
                self.x[reg] = r;
            }
            (0x70, 0xf2) | (0x70, 0xf3) => {
                let b = self.xrd(m, &rm, 16)?;
                let i = d.u8();
                let s = if pfx == 0xf3 { 64 } else { 0 };
                let mut r = b & !(LO64 << s);
                for k in 0..4 { r |= (b >> (s + 16 * (i >> (2 * k) & 3) as u32) & 0xffff) << (s + 16 * k); }
                self.x[reg] = r;
            }
            (0xc6, 0) => {
                let b = self.xrd(m, &rm, 16)?;
                let i = d.u8();
                let a = self.x[src1];
                let g = |v: u128, k: u8| v >> (32 * (k & 3)) & 0xffff_ffff;
                self.x[reg] = g(a, i) | g(a, i >> 2) << 32 | g(b, i >> 4) << 64 | g(b, i >> 6) << 96;
            }
            (0xc6, 0x66) => {
                let b = self.xrd(m, &rm, 16)?;
                let i = d.u8();
                let a = self.x[src1];
                self.x[reg] = (a >> (64 * (i & 1)) & LO64) | (b >> (64 * (i >> 1 & 1)) & LO64) << 64;
            }
            (0xc4, 0x66) => {
                let v = self.rd(m, &rm, 2, true)? as u128 & 0xffff;
                let i = (d.u8() & 7) as u32 * 16;
                self.x[reg] = self.x[src1] & !(0xffff << i) | v << i;
            }
            (0xc5, 0x66) => {
                let v = if let Rm::Reg(k) = rm { self.x[k] } else { 0 };
                let i = (d.u8() & 7) as u32 * 16;
                self.setr(reg, 4, true, (v >> i) as u64 & 0xffff);
            }
            (0x67, 0x66) | (0x63, 0x66) | (0x6b, 0x66) => {
                let b = self.xrd(m, &rm, 16)?;
                let a = self.x[src1];
                let sw = if op == 0x6b { 32 } else { 16 };
                let dw = sw / 2;
                let n = 128 / sw;
                let cv = |v: u128, i: u32| -> u128 {
                    let e = ((v >> (sw * i)) << (128 - sw)) as i128 >> (128 - sw);
                    let r = if op == 0x67 { e.clamp(0, 255) } else { e.clamp(-(1 << (dw - 1)), (1 << (dw - 1)) - 1) };
                    r as u128 & ((1 << dw) - 1)
                };
                let mut r = 0;
                for i in 0..n { r |= cv(a, i) << (dw * i) | cv(b, i) << (64 + dw * i); }
                self.x[reg] = r;
            }
            // shifts by immediate
            (0x71..=0x73, 0x66) => {
                let i = d.u8() as u32;
                let t = if let Rm::Reg(t) = rm { t } else { return Err(self.unk(d, "psxx mem")); };
                let v = self.x[t];
                let k = reg & 7;
                let dst = vex.unwrap_or(t);
                self.x[dst] = if op == 0x73 && (k == 3 || k == 7) {
                    if i > 15 { 0 } else if k == 3 { v >> (8 * i) } else { v << (8 * i) }
                } else {
                    let w = match op { 0x71 => 16, 0x72 => 32, _ => 64 };
                    lanes(v, w, |e| match k {
                        2 => if i >= w { 0 } else { e >> i },
                        6 => if i >= w { 0 } else { e << i },
                        _ => { let s = ((e << (128 - w)) as i128) >> (128 - w); (s >> i.min(w - 1)) as u128 }
                    })
                };
            }
            (0xd1..=0xd3, 0x66) | (0xf1..=0xf3, 0x66) | (0xe1, 0x66) | (0xe2, 0x66) => {
                let c = self.xrd(m, &rm, 16)? & LO64;
                let w = match op & 0xf { 1 => 16, 2 => 32, _ => 64 };
                let v = self.x[src1];
                self.x[reg] = lanes(v, w, |e| match op >> 4 {
                    0xd => if c >= w as u128 { 0 } else { e >> c },
                    0xf => if c >= w as u128 { 0 } else { e << c },
                    _ => { let s = ((e << (128 - w)) as i128) >> (128 - w); (s >> c.min(w as u128 - 1)) as u128 }
                });
            }
            // packed integer arithmetic / compares
            (0xfc..=0xfe, 0x66) | (0xd4, 0x66) | (0xf8..=0xfb, 0x66) | (0x74..=0x76, 0x66) | (0x64..=0x66, 0x66) | (0xda, 0x66) | (0xde, 0x66) | (0xea, 0x66) | (0xee, 0x66) | (0xd5, 0x66) => {
                let b = self.xrd(m, &rm, 16)?;
                let a = self.x[src1];
                let w: u32 = match op { 0xfc | 0xf8 | 0x74 | 0x64 | 0xda | 0xde => 8, 0xfd | 0xf9 | 0x75 | 0x65 | 0xea | 0xee | 0xd5 => 16, 0xfe | 0xfa | 0x76 | 0x66 => 32, _ => 64 };
                let sx = |e: u128| ((e << (128 - w)) as i128) >> (128 - w);
                self.x[reg] = lanes2(a, b, w, |p, q| match op {
                    0xfc..=0xfe | 0xd4 => p.wrapping_add(q),
                    0xf8..=0xfb => p.wrapping_sub(q),
                    0x74..=0x76 => if p == q { !0 } else { 0 },
                    0x64..=0x66 => if sx(p) > sx(q) { !0 } else { 0 },
                    0xda => p.min(q),
                    0xde => p.max(q),
                    0xea => sx(p).min(sx(q)) as u128,
                    0xee => sx(p).max(sx(q)) as u128,
                    _ => p.wrapping_mul(q),
                });
            }
            // saturating arithmetic
            (0xd8 | 0xd9 | 0xdc | 0xdd | 0xe8 | 0xe9 | 0xec | 0xed, 0x66) => {
                let b = self.xrd(m, &rm, 16)?;
                let a = self.x[src1];
                let w: u32 = if op & 1 == 0 { 8 } else { 16 };
                let (mk, lim) = ((1i64 << w) - 1, 1i64 << (w - 1));
                let sx = |e: u128| ((e as i64) << (64 - w)) >> (64 - w);
                self.x[reg] = lanes2(a, b, w, |p, q| match op {
                    0xd8 | 0xd9 => (p as i64 - q as i64).max(0) as u128,
                    0xdc | 0xdd => (p as i64 + q as i64).min(mk) as u128,
                    0xe8 | 0xe9 => (sx(p) - sx(q)).clamp(-lim, lim - 1) as u128,
                    _ => (sx(p) + sx(q)).clamp(-lim, lim - 1) as u128,
                });
            }
            // float arithmetic: scalar and packed
            (0x58, _) | (0x59, _) | (0x5c, _) | (0x5d, _) | (0x5e, _) | (0x5f, _) | (0x51, _) => {
                let (w, scalar) = match pfx { 0xf3 => (32, true), 0xf2 => (64, true), 0 => (32, false), _ => (64, false) };
                let b = self.xrd(m, &rm, if scalar { w / 8 } else { 16 })?;
                let a = self.x[src1];
                let f = |p: u128, q: u128| if w == 32 { fop32(op, p as u32, q as u32) as u128 } else { fop64(op, p as u64, q as u64) as u128 };
                self.x[reg] = if scalar { let mk = (1u128 << w) - 1; a & !mk | f(a & mk, b & mk) } else { lanes2(a, b, w, f) };
            }
            (0xc2, _) => {
                let (w, scalar) = match pfx { 0xf3 => (32, true), 0xf2 => (64, true), 0 => (32, false), _ => (64, false) };
                let b = self.xrd(m, &rm, if scalar { w / 8 } else { 16 })?;
                let i = d.u8();
                let a = self.x[src1];
                let f = |p: u128, q: u128| {
                    let o = if w == 32 { f32::from_bits(p as u32).partial_cmp(&f32::from_bits(q as u32)) } else { f64::from_bits(p as u64).partial_cmp(&f64::from_bits(q as u64)) };
                    use std::cmp::Ordering::*;
                    let r = match i & 3 { 0 => o == Some(Equal), 1 => o == Some(Less), 2 => matches!(o, Some(Less | Equal)), _ => o.is_none() };
                    if r != (i & 4 != 0) { (1u128 << w) - 1 } else { 0 }
                };
                self.x[reg] = if scalar { let mk = (1u128 << w) - 1; a & !mk | f(a & mk, b & mk) } else { lanes2(a, b, w, f) };
            }
            (0x2e, _) | (0x2f, _) => {
                let w = if pfx == 0x66 { 8 } else { 4 };
                let b = self.xrd(m, &rm, w)?;
                let a = self.x[reg];
                let o = if w == 4 { f32::from_bits(a as u32).partial_cmp(&f32::from_bits(b as u32)) } else { f64::from_bits(a as u64).partial_cmp(&f64::from_bits(b as u64)) };
                use std::cmp::Ordering::*;
                let (z, p, c) = match o { None => (true, true, true), Some(Less) => (false, false, true), Some(Greater) => (false, false, false), Some(Equal) => (true, false, false) };
                self.setf([c, p, z, false, false]);
            }
            (0x5a, _) => {
                match pfx {
                    0xf3 => { let b = self.xrd(m, &rm, 4)?; self.x[reg] = self.x[src1] & !LO64 | (f32::from_bits(b as u32) as f64).to_bits() as u128; }
                    0xf2 => { let b = self.xrd(m, &rm, 8)?; self.x[reg] = self.x[src1] & !0xffff_ffff | (f64::from_bits(b as u64) as f32).to_bits() as u128; }
                    0 => { let b = self.xrd(m, &rm, 8)?; self.x[reg] = (f32::from_bits(b as u32) as f64).to_bits() as u128 | ((f32::from_bits((b >> 32) as u32) as f64).to_bits() as u128) << 64; }
                    _ => { let b = self.xrd(m, &rm, 16)?; self.x[reg] = (f64::from_bits(b as u64) as f32).to_bits() as u128 | ((f64::from_bits((b >> 64) as u64) as f32).to_bits() as u128) << 32; }
                }
            }
            (0x2a, 0xf2) | (0x2a, 0xf3) => {
                let sz = if d.w() { 8 } else { 4 };
                let v = sext(self.rd(m, &rm, sz, true)?, sz);
                if pfx == 0xf3 { self.x[reg] = self.x[src1] & !0xffff_ffff | (v as f32).to_bits() as u128; } else { self.x[reg] = self.x[src1] & !LO64 | (v as f64).to_bits() as u128; }
            }
            (0x2c, 0xf2) | (0x2c, 0xf3) => {
                let b = self.xrd(m, &rm, if pfx == 0xf3 { 4 } else { 8 })?;
                let v = if pfx == 0xf3 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b as u64) };
                let sz = if d.w() { 8 } else { 4 };
                let lim = if sz == 8 { 9_223_372_036_854_775_808.0 } else { 2_147_483_648.0 };
                let t = v.trunc();
                let r = if t >= -lim && t < lim { t as i64 as u64 } else { 1 << (sz * 8 - 1) };
                self.setr(reg, sz, true, r & mask(sz));
            }
            (0xe6, 0xf3) => { let b = self.xrd(m, &rm, 8)?; self.x[reg] = (b as u32 as i32 as f64).to_bits() as u128 | (((b >> 32) as u32 as i32 as f64).to_bits() as u128) << 64; }
            (0x5b, 0) => { let b = self.xrd(m, &rm, 16)?; self.x[reg] = lanes2(b, b, 32, |p, _| (p as u32 as i32 as f32).to_bits() as u128); }
            (0x5b, 0xf3) => { let b = self.xrd(m, &rm, 16)?; self.x[reg] = lanes2(b, b, 32, |p, _| { let t = f32::from_bits(p as u32).trunc(); if t >= -2_147_483_648.0 && t < 2_147_483_648.0 { t as i32 as u32 as u128 } else { 0x8000_0000 } }); }
            (0xf4, 0x66) => { let b = self.xrd(m, &rm, 16)?; let a = self.x[src1]; self.x[reg] = lanes2(a, b, 64, |p, q| (p & 0xffff_ffff) * (q & 0xffff_ffff)); }
            (0xf5, 0x66) => { let b = self.xrd(m, &rm, 16)?; let a = self.x[src1]; self.x[reg] = lanes2(a, b, 32, |p, q| { let f = |x: u128, k: u32| (x >> k) as u16 as i16 as i32; f(p, 0).wrapping_mul(f(q, 0)).wrapping_add(f(p, 16).wrapping_mul(f(q, 16))) as u32 as u128 }); }
            (0xf6, 0x66) => { let b = self.xrd(m, &rm, 16)?; let a = self.x[src1]; self.x[reg] = lanes2(a, b, 64, |p, q| (0..8).map(|i| ((p >> (8 * i)) as u8).abs_diff((q >> (8 * i)) as u8) as u128).sum()); }
            _ => return Err(self.unk(d, "sse")),
        }
        Ok(())
    }
    /// The handful of x87 instructions 32-bit code uses to move 64-bit values and return floats.
    fn x87(&mut self, m: &mut Mem, d: &mut D, op: u8) -> R<()> {
        let mb = d.b[d.i & 15];
        let k = mb >> 3 & 7;
        if mb >> 6 == 3 {
            d.i += 1;
            match (op, mb) {
                (0xd9, 0xee) => { self.fpush(0.0, 0, false); }
                (0xd9, 0xe8) => { self.fpush(1.0, 0, false); }
                (0xdd, 0xd8..=0xdf) => {
                    let s = (self.top + (mb as usize & 7)) & 7;
                    let t = self.top;
                    self.st[s] = self.st[t];
                    self.sti[s] = self.sti[t];
                    self.stisint[s] = self.stisint[t];
                    self.top = (self.top + 1) & 7;
                }
                _ => return Err(self.unk(d, "x87")),
            }
            return Ok(());
        }
        let (_, rm) = self.modrm(d, 0);
        let a = match rm { Rm::Mem(a) => a, _ => unreachable!() };
        match (op, k) {
            (0xdf, 5) => { let v = self.ld(m, a, 8)? as i64; self.fpush(v as f64, v as i128, true); }
            (0xdf, 7) => {
                let t = self.top;
                let v = if self.stisint[t] { self.sti[t] as i64 } else { self.st[t] as i64 };
                self.stw(m, a, 8, v as u64)?;
                self.top = (t + 1) & 7;
            }
            (0xd9, 0) => { let v = self.ld(m, a, 4)? as u32; self.fpush(f32::from_bits(v) as f64, 0, false); }
            (0xdd, 0) => { let v = self.ld(m, a, 8)?; self.fpush(f64::from_bits(v), 0, false); }
            (0xd9, 3) | (0xd9, 2) => { let t = self.top; let v = (if self.stisint[t] { self.sti[t] as f32 } else { self.st[t] as f32 }).to_bits(); self.stw(m, a, 4, v as u64)?; if k == 3 { self.top = (t + 1) & 7; } }
            (0xdd, 3) | (0xdd, 2) => { let t = self.top; let v = (if self.stisint[t] { self.sti[t] as f64 } else { self.st[t] }).to_bits(); self.stw(m, a, 8, v)?; if k == 3 { self.top = (t + 1) & 7; } }
            // rounding control only matters for integer stores, which truncate values in range here anyway
            (0xd9, 7) => { let w = self.fcw; self.stw(m, a, 2, w as u64)?; }
            (0xd9, 5) => { self.fcw = self.ld(m, a, 2)? as u16; }
            (0xd8, 0) => { let v = f32::from_bits(self.ld(m, a, 4)? as u32) as f64; let t = self.top; if self.stisint[t] && v.trunc() == v && v.abs() < 1e30 { self.sti[t] += v as i128; self.st[t] = self.sti[t] as f64; } else { let o = if self.stisint[t] { self.sti[t] as f64 } else { self.st[t] }; self.st[t] = o + v; self.stisint[t] = false; } }
            _ => return Err(self.unk(d, "x87 mem")),
        }
        Ok(())
    }
    fn fpush(&mut self, v: f64, i: i128, isint: bool) {
        self.top = (self.top + 7) & 7;
        self.st[self.top] = v;
        self.sti[self.top] = i;
        self.stisint[self.top] = isint;
    }

    // ------------------------------------------------------------ calls
    pub fn start_call(&mut self, m: &mut Mem, f: u64, args: &[u64], sp: u64, ret: u64) {
        for i in 0..16 { self.r[i] = (0xA5A5_0000_5A5A_0000 | i as u64 * 0x0101) & self.amask(); self.x[i] = 0xDEAD_BEEF_0000_0000_1234_5678_0000_0000 | i as u128; }
        self.df = false;
        self.cf = true;
        self.zf = true;
        self.top = 0;
        if self.is64 {
            let sp = sp & !15;
            // Windows: 32 bytes of home space above the return address
            let sp = if self.win { sp - 32 } else { sp };
            for (i, a) in args.iter().enumerate() { self.r[if self.win { [1, 2, 8, 9][i] } else { [7, 6, 2, 1, 8, 9][i] }] = *a; }
            self.r[4] = sp - 8;
            m.poke_private(sp - 8, 8, ret as u128);
        } else {
            let n = args.len() as u64 * 4;
            let sp = ((sp - n) & !15) - 4;
            for (i, a) in args.iter().enumerate() { m.poke_private(sp + 4 + i as u64 * 4, 4, *a as u128); }
            self.r[4] = sp;
            m.poke_private(sp, 4, ret as u128);
        }
        self.pc = f;
    }
    /// Checks the calling convention's preserved state after a return started by `start_call`.
    pub fn check_saved(&self, sp0: u64, nargs: usize) -> Option<String> {
        let list: &[usize] = if self.win { &[3, 5, 6, 7, 12, 13, 14, 15] } else if self.is64 { &[3, 5, 12, 13, 14, 15] } else { &[3, 5, 6, 7] };
        for &i in list {
            let want = (0xA5A5_0000_5A5A_0000 | i as u64 * 0x0101) & self.amask();
            if self.r[i] != want { return Some(format!("callee-saved register {} changed from {want:#x} to {:#x}", ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"][i], self.r[i])); }
        }
        if self.win {
            for i in 6..16 { if self.x[i] != 0xDEAD_BEEF_0000_0000_1234_5678_0000_0000 | i as u128 { return Some(format!("callee-saved register xmm{i} changed to {:#x}", self.x[i])); } }
        }
        let want = if self.win { (sp0 & !15) - 32 } else if self.is64 { sp0 & !15 } else { (sp0 - nargs as u64 * 4) & !15 };
        if self.r[4] != want { return Some(format!("stack pointer is {:#x} after return, expected {want:#x}", self.r[4])); }
        if self.df { return Some("direction flag left set".into()); }
        if !self.is64 && self.top != 0 { return Some("x87 stack not empty on return".into()); }
        None
    }
    pub fn arg(&self, m: &Mem, i: usize) -> u64 {
        if self.win { if i < 4 { self.r[[1, 2, 8, 9][i]] } else { m.peek(self.r[4] + 8 + i as u64 * 8, 8) as u64 } } else if self.is64 { self.r[[7, 6, 2, 1, 8, 9][i]] } else { m.peek(self.r[4] + 4 + i as u64 * 4, 4) as u64 }
    }
    /// Returns from a host stub.
    pub fn do_return(&mut self, m: &Mem, v: u64) {
        let sz = if self.is64 { 8 } else { 4 };
        self.pc = m.peek(self.r[4], sz) as u64;
        self.r[4] += sz as u64;
        let cs: &[usize] = if self.win { &[1, 2, 8, 9, 10, 11] } else if self.is64 { &[1, 2, 6, 7, 8, 9, 10, 11] } else { &[1, 2] };
        for &i in cs { self.r[i] = 0xC0C0_C0C0_C0C0_C0C0 & self.amask(); }
        for i in 0..if self.win { 6 } else { 16 } { self.x[i] = 0xC0C0_C0C0; }
        self.cf = false;
        self.zf = false;
        self.r[0] = v & self.amask();
    }
    pub fn sp(&self) -> u64 { self.r[4] }
}
fn lanes(v: u128, w: u32, f: impl Fn(u128) -> u128) -> u128 {
    let mk = (1u128 << w) - 1;
    let mut r = 0;
    for i in 0..128 / w { r |= (f(v >> (w * i) & mk) & mk) << (w * i); }
    r
}
fn lanes2(a: u128, b: u128, w: u32, f: impl Fn(u128, u128) -> u128) -> u128 {
    let mk = (1u128 << w) - 1;
    let mut r = 0;
    for i in 0..128 / w { r |= (f(a >> (w * i) & mk, b >> (w * i) & mk) & mk) << (w * i); }
    r
}
fn fop32(op: u8, a: u32, b: u32) -> u32 {
    let (x, y) = (f32::from_bits(a), f32::from_bits(b));
    let nan = |z: f32| -> u32 {
        if op == 0x51 { return z.to_bits(); }
        if x.is_nan() { a | 0x40_0000 } else if y.is_nan() { b | 0x40_0000 } else if z.is_nan() { 0xffc0_0000 } else { z.to_bits() }
    };
    match op {
        0x58 => nan(x + y),
        0x59 => nan(x * y),
        0x5c => nan(x - y),
        0x5e => nan(x / y),
        0x5d => if x < y { a } else { b },
        0x5f => if x > y { a } else { b },
        _ => nan(y.sqrt()),
    }
}
fn fop64(op: u8, a: u64, b: u64) -> u64 {
    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
    let q = 1u64 << 51;
    let nan = |z: f64| -> u64 {
        if op == 0x51 { return z.to_bits(); }
        if x.is_nan() { a | q } else if y.is_nan() { b | q } else if z.is_nan() { 0xfff8_0000_0000_0000 } else { z.to_bits() }
    };
    match op {
        0x58 => nan(x + y),
        0x59 => nan(x * y),
        0x5c => nan(x - y),
        0x5e => nan(x / y),
        0x5d => if x < y { a } else { b },
        0x5f => if x > y { a } else { b },
        _ => nan(y.sqrt()),
    }
}
