//! Power ISA emulator (64-bit mode, both byte orders, ELFv2): what LLVM emits for the general, floating-point and
//! a few vector instructions.
use crate::mem::{Mem, Trap, LK};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct PpcFeat {
    /// 4 (no VSX), 7 or 8 (ISA 2.07: quadword and sub-word reservations)
    pub level: u8,
    /// What the auxiliary vector reports: 0 the truth, 1 nothing, 2 everything but ISA 2.07
    pub report: u8,
}
impl PpcFeat {
    pub fn full() -> PpcFeat { PpcFeat { level: 8, report: 0 } }
    pub fn bits(&self) -> u64 { self.level as u64 | (self.report as u64) << 8 }
    pub fn from_bits(b: u64) -> PpcFeat { PpcFeat { level: b as u8, report: (b >> 8) as u8 } }
    pub fn auxv(&self, key: u64) -> u64 {
        if self.report == 1 { return 0; }
        match key {
            16 => 0xc000_0000 | if self.level >= 7 { 0x0000_0180 } else { 0 },
            // every facility of ISA 2.07 except the one asked about comes with the other reports
            26 => if self.level >= 8 { 0x2e00_0000 | if self.report == 0 { 0x8000_0000 } else { 0 } } else { 0 },
            _ => 0,
        }
    }
}
#[derive(Clone)]
pub struct Ppc {
    g: [u64; 32],
    /// VSX registers; the high half of the first 32 are the floating-point registers, the last 32 the VMX registers
    v: [u128; 64],
    cr: [u8; 8],
    ca: bool,
    lr: u64,
    ctr: u64,
    pub pc: u64,
    npc: u64,
    pub feat: PpcFeat,
    /// When the loads each register depends on were satisfied (for `isync` after a conditional branch).
    dep: [u64; 32],
    crdep: [u64; 8],
    cadep: u64,
    acc: u64,
    ctrl: u64,
    resv_t: u64,
}
type R<T> = Result<T, Trap>;
const P: LK = LK { acq: 0, tear: false, ex: false, cont: false };
const EX: LK = LK { acq: 0, tear: false, ex: true, cont: false };
const TEAR: LK = LK { acq: 0, tear: true, ex: false, cont: false };
fn mask(mb: u32, me: u32) -> u64 {
    let (a, b) = (u64::MAX >> mb, u64::MAX << (63 - me));
    if mb <= me { a & b } else { a | b }
}
fn cmpf<T: PartialOrd>(a: T, b: T) -> u8 { if a < b { 8 } else if a > b { 4 } else { 2 } }
const Q64: u64 = 1 << 51;
fn isnan(a: u64) -> bool { f64::from_bits(a).is_nan() }
fn snan(a: u64) -> bool { isnan(a) && a & Q64 == 0 }
/// DOUBLE(): exact widening, signalling NaNs stay signalling.
fn widen(x: u32) -> u64 {
    if x & 0x7f80_0000 == 0x7f80_0000 { return (x as u64 >> 31) << 63 | 0x7ff0_0000_0000_0000 | (x as u64 & 0x7f_ffff) << 29; }
    (f32::from_bits(x) as f64).to_bits()
}
/// SINGLE(): exact narrowing of a value representable in single format.
fn narrow(x: u64) -> u32 {
    let e = x >> 52 & 0x7ff;
    if e > 896 || x << 1 == 0 { return ((x >> 32) as u32 & 0xc000_0000) | (x >> 29) as u32 & 0x3fff_ffff; }
    if e >= 874 { return (f64::from_bits(x) as f32).to_bits(); }
    (x >> 63 << 31) as u32
}
fn nanp(ops: &[u64], r: f64, single: bool) -> u64 {
    if !r.is_nan() { return r.to_bits(); }
    for o in ops { if isnan(*o) { let q = *o | Q64; return if single { q & !0x1fff_ffff } else { q }; } }
    0x7ff8_0000_0000_0000
}
fn arith(k: u32, a: u64, b: u64, single: bool) -> u64 {
    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
    if single {
        // exact double-width operations on single values, rounded once (double rounding is innocuous for + - * /)
        let r = match k { 0 => x + y, 1 => x - y, 2 => x * y, _ => x / y };
        if !r.is_nan() { return ((r as f32) as f64).to_bits(); }
        return nanp(&[a, b], r, true);
    }
    nanp(&[a, b], match k { 0 => x + y, 1 => x - y, 2 => x * y, _ => x / y }, false)
}
fn fma(a: u64, c: u64, b: u64, sub: bool, neg: bool, single: bool) -> u64 {
    let (x, y, z) = (f64::from_bits(a), f64::from_bits(c), f64::from_bits(b));
    let r = x.mul_add(y, if sub { -z } else { z });
    if r.is_nan() { return nanp(&[a, b, c], r, single); }
    let r = if single { (r as f32) as f64 } else { r };
    (if neg { -r } else { r }).to_bits()
}
fn maxmin(a: u64, b: u64, max: bool) -> u64 {
    if snan(a) { return a | Q64; }
    if snan(b) { return b | Q64; }
    if isnan(a) { return if isnan(b) { a } else { b }; }
    if isnan(b) { return a; }
    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
    if x == y { return if max == (a >> 63 != 0) { b } else { a }; }
    if (x < y) != max { a } else { b }
}
fn rsp(a: u64) -> u64 { if isnan(a) { (a | Q64) & !0x1fff_ffff } else { ((f64::from_bits(a) as f32) as f64).to_bits() } }
fn fcmp(a: u64, b: u64) -> u8 { if isnan(a) || isnan(b) { 1 } else { cmpf(f64::from_bits(a), f64::from_bits(b)) } }
/// Applies `f` to each element of `w` bits.
fn lanes(a: u128, b: u128, w: u32, f: &dyn Fn(u128, u128) -> u128) -> u128 {
    let e = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
    let mut r = 0;
    for k in 0..128 / w { r |= (f(a >> (k * w) & e, b >> (k * w) & e) & e) << (k * w); }
    r
}
fn sx(v: u128, w: u32) -> i128 { (v << (128 - w)) as i128 >> (128 - w) }

impl Ppc {
    pub fn new(feat: PpcFeat) -> Ppc {
        Ppc { g: [0; 32], v: [0; 64], cr: [0; 8], ca: false, lr: 0, ctr: 0, pc: 0, npc: 0, feat, dep: [0; 32], crdep: [0; 8], cadep: 0, acc: 0, ctrl: 0, resv_t: 0 }
    }
    #[inline]
    fn r(&mut self, i: u32) -> u64 { self.acc = self.acc.max(self.dep[i as usize & 31]); self.g[i as usize & 31] }
    #[inline]
    fn r0(&mut self, i: u32) -> u64 { if i == 0 { 0 } else { self.r(i) } }
    #[inline]
    fn w(&mut self, i: u32, v: u64) { self.dep[i as usize & 31] = self.acc; self.g[i as usize & 31] = v; }
    fn setcr(&mut self, f: u32, v: u8) { self.cr[f as usize] = v; self.crdep[f as usize] = self.acc; }
    fn crbit(&mut self, i: u32) -> bool { let f = (i >> 2) as usize; self.acc = self.acc.max(self.crdep[f]); self.cr[f] >> (3 - (i & 3)) & 1 != 0 }
    fn rc(&mut self, on: bool, v: u64) { if on { self.setcr(0, cmpf(v as i64, 0)); } }
    fn rdca(&mut self) -> u64 { self.acc = self.acc.max(self.cadep); self.ca as u64 }
    fn wrca(&mut self, c: bool) { self.ca = c; self.cadep = self.acc; }
    fn addc(&mut self, a: u64, b: u64, c: u64) -> u64 { let t = a as u128 + b as u128 + c as u128; self.wrca(t >> 64 != 0); t as u64 }
    fn fd(&self, i: u32) -> u64 { (self.v[i as usize] >> 64) as u64 }
    fn wfd(&mut self, i: u32, x: u64) { self.v[i as usize] = (x as u128) << 64; }
    fn need(&self, l: u8, what: &str) -> R<()> { if self.feat.level >= l { Ok(()) } else { Err(Trap::Illegal(self.pc, format!("{what} on a POWER{} class CPU", self.feat.level))) } }
    fn ld(&mut self, m: &mut Mem, a: u64, n: u32) -> R<u64> { let v = m.load(a, n, P)? as u64; self.acc = self.acc.max(m.load_time()); Ok(v) }
    fn st(&mut self, m: &mut Mem, a: u64, n: u32, v: u64) -> R<()> {
        let v = if n < 8 { v & ((1 << (8 * n)) - 1) } else { v };
        m.store(a, n, v as u128, false, false)
    }
    fn larx(&mut self, m: &mut Mem, a: u64, n: u32) -> R<u128> {
        if a & (n as u64 - 1) != 0 { return Err(Trap::Fault(a, "misaligned load-and-reserve")); }
        let v = m.load(a, n, EX)?;
        self.resv_t = m.load_time();
        self.acc = self.acc.max(self.resv_t);
        Ok(v)
    }
    fn stcx(&mut self, m: &mut Mem, a: u64, n: u32, v: u128) -> R<()> {
        let v = if n < 16 { v & ((1 << (8 * n)) - 1) } else { v };
        let ok = m.sc(a, n, v, false)?;
        self.acc = self.acc.max(self.resv_t);
        self.setcr(0, if ok { 2 } else { 0 });
        Ok(())
    }
    fn lvec(&mut self, m: &mut Mem, a: u64, w: u32) -> R<u128> {
        let mut v = 0u128;
        for i in 0..16 / w { v = if w == 16 { 0 } else { v << (8 * w) } | m.load(a.wrapping_add((i * w) as u64), w, TEAR)?; }
        Ok(v)
    }
    fn svec(&mut self, m: &mut Mem, a: u64, w: u32, v: u128) -> R<()> {
        let e = if w == 16 { u128::MAX } else { (1u128 << (8 * w)) - 1 };
        for i in 0..16 / w { m.store(a.wrapping_add((i * w) as u64), w, v >> (128 - 8 * w * (i + 1)) & e, false, true)?; }
        Ok(())
    }
    fn branch(&mut self, x: u32, to: u64) {
        let (bo, bi) = (x >> 21 & 31, x >> 16 & 31);
        if bo & 4 == 0 { self.ctr = self.ctr.wrapping_sub(1); }
        let c = bo & 4 != 0 || (self.ctr != 0) != (bo & 2 != 0);
        let k = bo & 16 != 0 || self.crbit(bi) == (bo & 8 != 0);
        self.ctrl = self.ctrl.max(self.acc);
        if x & 1 != 0 { self.lr = self.pc + 4; }
        if c && k { self.npc = to; }
    }

    pub fn step(&mut self, m: &mut Mem) -> R<()> {
        let pc = self.pc;
        let Some(b) = m.fetch(pc, 4) else { return Err(Trap::Fault(pc, "jump outside the program")) };
        if pc & 3 != 0 || b.len() < 4 { return Err(Trap::Fault(pc, "jump outside the program")); }
        let b = [b[0], b[1], b[2], b[3]];
        let x = if m.be { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) };
        self.npc = pc + 4;
        self.acc = 0;
        self.exec(m, x)?;
        self.pc = self.npc;
        Ok(())
    }
    fn exec(&mut self, m: &mut Mem, x: u32) -> R<()> {
        let (rt, ra, rb) = (x >> 21 & 31, x >> 16 & 31, x >> 11 & 31);
        let si = x as u16 as i16 as i64 as u64;
        let ui = x as u16 as u64;
        let rcb = x & 1 != 0;
        match x >> 26 {
            4 => return self.vmx(x),
            7 => { let a = self.r(ra); self.w(rt, a.wrapping_mul(si)); }
            8 => { let a = self.r(ra); let v = self.addc(!a, si, 1); self.w(rt, v); }
            10 => { let a = self.r(ra); let c = if rt & 1 != 0 { cmpf(a, ui) } else { cmpf(a as u32, ui as u32) }; self.setcr(rt >> 2, c); }
            11 => { let a = self.r(ra); let c = if rt & 1 != 0 { cmpf(a as i64, si as i64) } else { cmpf(a as i32, si as i32) }; self.setcr(rt >> 2, c); }
            k @ (12 | 13) => { let a = self.r(ra); let v = self.addc(a, si, 0); self.w(rt, v); self.rc(k == 13, v); }
            14 => { let a = self.r0(ra); self.w(rt, a.wrapping_add(si)); }
            15 => { let a = self.r0(ra); self.w(rt, a.wrapping_add(si << 16)); }
            16 => { let d = (x & 0xfffc) as u16 as i16 as i64 as u64; let to = if x & 2 != 0 { d } else { self.pc.wrapping_add(d) }; self.branch(x, to); }
            18 => {
                let d = (((x & 0x03ff_fffc) << 6) as i32 >> 6) as i64 as u64;
                if rcb { self.lr = self.pc + 4; }
                self.npc = if x & 2 != 0 { d } else { self.pc.wrapping_add(d) };
            }
            19 => match x >> 1 & 0x3ff {
                0 => { let f = (ra >> 2) as usize; self.acc = self.crdep[f]; let v = self.cr[f]; self.setcr(rt >> 2, v); }
                16 => { let to = self.lr & !3; self.branch(x, to); }
                528 => { let to = self.ctr & !3; self.branch(x, to); }
                150 => { m.raise_bar(self.ctrl); }
                k @ (33 | 129 | 193 | 225 | 257 | 289 | 417 | 449) => {
                    let (a, b) = (self.crbit(ra), self.crbit(rb));
                    let v = match k { 33 => !(a | b), 129 => a & !b, 193 => a ^ b, 225 => !(a & b), 257 => a & b, 289 => a == b, 417 => a | !b, _ => a | b };
                    let f = (rt >> 2) as usize;
                    let s = 3 - (rt & 3);
                    self.crdep[f] = self.crdep[f].max(self.acc);
                    self.cr[f] = self.cr[f] & !(1 << s) | (v as u8) << s;
                }
                _ => return Err(Trap::Unknown(self.pc, format!("{x:08x}"))),
            },
            k @ (20 | 21 | 23) => {
                let sh = if k == 23 { self.r(rb) as u32 & 31 } else { rb };
                let s = (self.r(rt) as u32).rotate_left(sh) as u64;
                let mk = mask((x >> 6 & 31) + 32, (x >> 1 & 31) + 32);
                let old = if k == 20 { self.r(ra) } else { 0 };
                let v = (s | s << 32) & mk | if k == 20 { old & !mk } else { 0 };
                self.w(ra, v);
                self.rc(rcb, v);
            }
            24 => { let a = self.r(rt); self.w(ra, a | ui); }
            25 => { let a = self.r(rt); self.w(ra, a | ui << 16); }
            26 => { let a = self.r(rt); self.w(ra, a ^ ui); }
            27 => { let a = self.r(rt); self.w(ra, a ^ ui << 16); }
            28 => { let a = self.r(rt) & ui; self.w(ra, a); self.rc(true, a); }
            29 => { let a = self.r(rt) & ui << 16; self.w(ra, a); self.rc(true, a); }
            30 => {
                let s = self.r(rt);
                let b = (x >> 6 & 31) | (x & 0x20);
                let sh = rb | (x & 2) << 4;
                let v = match x >> 2 & 7 {
                    0 => s.rotate_left(sh) & mask(b, 63),
                    1 => s.rotate_left(sh) & mask(0, b),
                    2 => s.rotate_left(sh) & mask(b, 63 - sh),
                    3 => { let mk = mask(b, 63 - sh); s.rotate_left(sh) & mk | self.r(ra) & !mk }
                    _ => { let n = self.r(rb) as u32 & 63; s.rotate_left(n) & if x >> 1 & 1 == 0 { mask(b, 63) } else { mask(0, b) } }
                };
                self.w(ra, v);
                self.rc(rcb, v);
            }
            31 => return self.x31(m, x),
            op @ 32..=45 => {
                let ea = (if op & 1 != 0 { self.r(ra) } else { self.r0(ra) }).wrapping_add(si);
                match op & !1 {
                    32 => { let v = self.ld(m, ea, 4)?; self.w(rt, v); }
                    34 => { let v = self.ld(m, ea, 1)?; self.w(rt, v); }
                    36 => { let v = self.r(rt); self.st(m, ea, 4, v)?; }
                    38 => { let v = self.r(rt); self.st(m, ea, 1, v)?; }
                    40 => { let v = self.ld(m, ea, 2)?; self.w(rt, v); }
                    42 => { let v = self.ld(m, ea, 2)? as i16 as u64; self.w(rt, v); }
                    _ => { let v = self.r(rt); self.st(m, ea, 2, v)?; }
                }
                if op & 1 != 0 { self.w(ra, ea); }
            }
            op @ 48..=55 => {
                let ea = (if op & 1 != 0 { self.r(ra) } else { self.r0(ra) }).wrapping_add(si);
                match op & !1 {
                    48 => { let v = self.ld(m, ea, 4)?; self.wfd(rt, widen(v as u32)); }
                    50 => { let v = self.ld(m, ea, 8)?; self.wfd(rt, v); }
                    52 => { let v = narrow(self.fd(rt)); self.st(m, ea, 4, v as u64)?; }
                    _ => { let v = self.fd(rt); self.st(m, ea, 8, v)?; }
                }
                if op & 1 != 0 { self.w(ra, ea); }
            }
            56 => {
                self.need(8, "lq")?;
                let ea = self.r0(ra).wrapping_add((x & 0xfff0) as u16 as i16 as i64 as u64);
                if ea & 15 != 0 { return Err(Trap::Fault(ea, "misaligned lq")); }
                let v = m.load(ea, 16, P)?;
                self.acc = self.acc.max(m.load_time());
                self.w(rt, (v >> 64) as u64);
                self.w(rt | 1, v as u64);
            }
            58 => {
                let d = (x & 0xfffc) as u16 as i16 as i64 as u64;
                let ea = (if x & 3 == 1 { self.r(ra) } else { self.r0(ra) }).wrapping_add(d);
                match x & 3 {
                    0 => { let v = self.ld(m, ea, 8)?; self.w(rt, v); }
                    1 => { let v = self.ld(m, ea, 8)?; self.w(rt, v); self.w(ra, ea); }
                    2 => { let v = self.ld(m, ea, 4)? as u32 as i32 as u64; self.w(rt, v); }
                    _ => return Err(Trap::Unknown(self.pc, format!("{x:08x}"))),
                }
            }
            62 => {
                let d = (x & 0xfffc) as u16 as i16 as i64 as u64;
                let ea = (if x & 3 == 1 { self.r(ra) } else { self.r0(ra) }).wrapping_add(d);
                match x & 3 {
                    0 => { let v = self.r(rt); self.st(m, ea, 8, v)?; }
                    1 => { let v = self.r(rt); self.st(m, ea, 8, v)?; self.w(ra, ea); }
                    2 => {
                        self.need(8, "stq")?;
                        if ea & 15 != 0 { return Err(Trap::Fault(ea, "misaligned stq")); }
                        let v = (self.r(rt) as u128) << 64 | self.r(rt | 1) as u128;
                        m.store(ea, 16, v, false, false)?;
                    }
                    _ => return Err(Trap::Unknown(self.pc, format!("{x:08x}"))),
                }
            }
            k @ (59 | 63) => {
                let single = k == 59;
                let rcc = x >> 6 & 31;
                let (a, b, c) = (self.fd(ra), self.fd(rb), self.fd(rcc));
                let v = match x >> 1 & 31 {
                    18 => arith(3, a, b, single),
                    20 => arith(1, a, b, single),
                    21 => arith(0, a, b, single),
                    25 => arith(2, a, c, single),
                    23 if !single => if f64::from_bits(a) >= 0.0 { c } else { b },
                    n @ 28..=31 => fma(a, c, b, n & 1 == 0, n & 2 != 0, single),
                    _ => match (single, x >> 1 & 0x3ff) {
                        (false, 0) => { let c = fcmp(a, b); self.setcr(rt >> 2, c); return Ok(()); }
                        (false, 8) => b & !(1 << 63) | a & 1 << 63,
                        (false, 12) => rsp(b),
                        (false, 14 | 15) => { let f = f64::from_bits(b); let f = if x >> 1 & 1 != 0 { f.trunc() } else { f.round_ties_even() }; (f as i32) as u32 as u64 }
                        (false, 40) => b ^ 1 << 63,
                        (false, 72) => b,
                        (false, 136) => b | 1 << 63,
                        (false, 264) => b & !(1 << 63),
                        (false, 814 | 815) => { let f = f64::from_bits(b); let f = if x >> 1 & 1 != 0 { f.trunc() } else { f.round_ties_even() }; f as i64 as u64 }
                        (false, 846) => (b as i64 as f64).to_bits(),
                        (false, 974) => (b as f64).to_bits(),
                        (true, 846) => widen((b as i64 as f32).to_bits()),
                        (true, 974) => widen((b as f32).to_bits()),
                        _ => return Err(Trap::Unknown(self.pc, format!("{x:08x}"))),
                    },
                };
                if rcb { return Err(Trap::Unknown(self.pc, format!("{x:08x}"))); }
                self.wfd(rt, v);
            }
            60 => return self.vsx(x),
            _ => return Err(Trap::Unknown(self.pc, format!("{x:08x}"))),
        }
        Ok(())
    }
    fn x31(&mut self, m: &mut Mem, x: u32) -> R<()> {
        let (rt, ra, rb) = (x >> 21 & 31, x >> 16 & 31, x >> 11 & 31);
        let rcb = x & 1 != 0;
        let xo = x >> 1 & 0x3ff;
        if xo & 31 == 15 {
            self.need(7, "isel")?;
            let (a, b) = (self.r0(ra), self.r(rb));
            let v = if self.crbit(x >> 6 & 31) { a } else { b };
            self.w(rt, v);
            return Ok(());
        }
        let ea = |s: &mut Self| s.r0(ra).wrapping_add(s.r(rb));
        let eau = |s: &mut Self| s.r(ra).wrapping_add(s.r(rb));
        let vt = rt | (x & 1) << 5;
        match xo {
            0 => { let (a, b) = (self.r(ra), self.r(rb)); let c = if rt & 1 != 0 { cmpf(a as i64, b as i64) } else { cmpf(a as i32, b as i32) }; self.setcr(rt >> 2, c); }
            32 => { let (a, b) = (self.r(ra), self.r(rb)); let c = if rt & 1 != 0 { cmpf(a, b) } else { cmpf(a as u32, b as u32) }; self.setcr(rt >> 2, c); }
            4 | 68 => {
                let (a, b) = (self.r(ra), self.r(rb));
                let (sa, sb) = if xo == 4 { (a as i32 as i64, b as i32 as i64) } else { (a as i64, b as i64) };
                let (ua, ub) = if xo == 4 { (a as u32 as u64, b as u32 as u64) } else { (a, b) };
                if rt & 16 != 0 && sa < sb || rt & 8 != 0 && sa > sb || rt & 4 != 0 && sa == sb || rt & 2 != 0 && ua < ub || rt & 1 != 0 && ua > ub { return Err(Trap::Abort(self.pc, "trap")); }
            }
            // arithmetic
            8 | 10 | 136 | 138 | 200 | 202 | 232 | 234 | 40 | 266 | 104 | 9 | 73 | 11 | 75 | 233 | 235 | 457 | 459 | 489 | 491 => {
                let a = self.r(ra);
                let b = match xo { 200 | 202 | 232 | 234 | 104 => 0, _ => self.r(rb) };
                let v = match xo {
                    8 => self.addc(!a, b, 1),
                    10 => self.addc(a, b, 0),
                    136 => { let c = self.rdca(); self.addc(!a, b, c) }
                    138 => { let c = self.rdca(); self.addc(a, b, c) }
                    200 => { let c = self.rdca(); self.addc(!a, 0, c) }
                    202 => { let c = self.rdca(); self.addc(a, 0, c) }
                    232 => { let c = self.rdca(); self.addc(!a, u64::MAX, c) }
                    234 => { let c = self.rdca(); self.addc(a, u64::MAX, c) }
                    40 => b.wrapping_sub(a),
                    266 => a.wrapping_add(b),
                    104 => a.wrapping_neg(),
                    9 => (a as u128 * b as u128 >> 64) as u64,
                    73 => (a as i64 as i128 * b as i64 as i128 >> 64) as u64,
                    11 => (a as u32 as u64 * b as u32 as u64) >> 32,
                    75 => (a as i32 as i64 * b as i32 as i64 >> 32) as u32 as u64,
                    233 => a.wrapping_mul(b),
                    235 => (a as i32 as i64).wrapping_mul(b as i32 as i64) as u64,
                    457 => if b == 0 { 0 } else { a / b },
                    459 => if b as u32 == 0 { 0 } else { (a as u32 / b as u32) as u64 },
                    489 => (a as i64).checked_div(b as i64).unwrap_or(0) as u64,
                    _ => (a as i32).checked_div(b as i32).unwrap_or(0) as u32 as u64,
                };
                self.w(rt, v);
                self.rc(rcb, v);
            }
            // logical and shifts: destination is RA
            24 | 26 | 27 | 28 | 58 | 60 | 122 | 124 | 284 | 316 | 378 | 412 | 444 | 476 | 506 | 536 | 539 | 792 | 794 | 824 | 826 | 827 | 922 | 954 | 986 => {
                let s = self.r(rt);
                let v = match xo {
                    24 => { let n = self.r(rb) & 63; if n > 31 { 0 } else { (s << n) as u32 as u64 } }
                    27 => { let n = self.r(rb) & 127; if n > 63 { 0 } else { s << n } }
                    536 => { let n = self.r(rb) & 63; if n > 31 { 0 } else { (s as u32 >> n) as u64 } }
                    539 => { let n = self.r(rb) & 127; if n > 63 { 0 } else { s >> n } }
                    26 => (s as u32).leading_zeros() as u64,
                    58 => s.leading_zeros() as u64,
                    28 => s & self.r(rb),
                    60 => s & !self.r(rb),
                    124 => !(s | self.r(rb)),
                    284 => !(s ^ self.r(rb)),
                    316 => s ^ self.r(rb),
                    412 => s | !self.r(rb),
                    444 => s | self.r(rb),
                    476 => !(s & self.r(rb)),
                    122 => { let mut v = 0u64; for i in 0..8 { v |= ((s >> (8 * i)) as u8).count_ones() as u64 * (1 << (8 * i)); } v }
                    378 => { self.need(7, "popcntw")?; (s as u32).count_ones() as u64 | (((s >> 32) as u32).count_ones() as u64) << 32 }
                    506 => { self.need(7, "popcntd")?; s.count_ones() as u64 }
                    792 | 824 => {
                        let n = if xo == 792 { self.r(rb) as u32 & 63 } else { rb };
                        let w = s as i32 as i64;
                        let q = n.min(63);
                        let v = if n > 31 { w >> 63 } else { w >> q };
                        let lost = if n > 31 { w != 0 } else { (s as u32) & ((1u64 << n) - 1) as u32 != 0 };
                        self.wrca(w < 0 && lost);
                        v as u64
                    }
                    794 | 826 | 827 => {
                        let n = if xo == 794 { self.r(rb) as u32 & 127 } else { rb | (xo & 1) << 5 };
                        let w = s as i64;
                        let v = if n > 63 { w >> 63 } else { w >> n };
                        let lost = if n > 63 { w != 0 } else { s & ((1u64 << n) - 1) != 0 };
                        self.wrca(w < 0 && lost);
                        v as u64
                    }
                    922 => s as i16 as u64,
                    954 => s as i8 as u64,
                    _ => s as i32 as u64,
                };
                self.w(ra, v);
                self.rc(rcb, v);
            }
            508 => { let (s, b) = (self.r(rt), self.r(rb)); let mut v = 0u64; for i in 0..8 { if s >> (8 * i) as u8 & 255 == b >> (8 * i) & 255 { v |= 255 << (8 * i); } } self.w(ra, v); }
            // special registers
            19 => {
                let one = x >> 20 & 1 != 0;
                let fxm = if one { x >> 12 & 255 } else { 255 };
                let mut v = 0u64;
                for f in 0..8 { if fxm >> (7 - f) & 1 != 0 { self.acc = self.acc.max(self.crdep[f]); v |= (self.cr[f] as u64) << (28 - 4 * f); } }
                self.w(rt, v);
            }
            144 => { let v = self.r(rt); let fxm = x >> 12 & 255; for f in 0..8 { if fxm >> (7 - f) & 1 != 0 { self.setcr(f, (v >> (28 - 4 * f)) as u8 & 15); } } }
            339 | 467 => {
                let spr = ra | rb << 5;
                if xo == 339 { let v = match spr { 8 => self.lr, 9 => self.ctr, 1 => (self.ca as u64) << 29, 256 => u32::MAX as u64, _ => return Err(Trap::Unknown(self.pc, format!("mfspr {spr}"))) }; self.w(rt, v); }
                else { let v = self.r(rt); match spr { 8 => self.lr = v, 9 => self.ctr = v, 1 => self.ca = v >> 29 & 1 != 0, 256 => {}, _ => return Err(Trap::Unknown(self.pc, format!("mtspr {spr}"))) } }
            }
            // loads and stores
            21 | 23 | 87 | 279 | 341 | 343 => {
                let a = ea(self);
                let v = match xo { 21 => self.ld(m, a, 8)?, 23 => self.ld(m, a, 4)?, 87 => self.ld(m, a, 1)?, 279 => self.ld(m, a, 2)?, 341 => self.ld(m, a, 4)? as i32 as u64, _ => self.ld(m, a, 2)? as i16 as u64 };
                self.w(rt, v);
            }
            53 | 55 | 119 | 311 => { let a = eau(self); let n = match xo { 53 => 8, 55 => 4, 119 => 1, _ => 2 }; let v = self.ld(m, a, n)?; self.w(rt, v); self.w(ra, a); }
            149 | 151 | 215 | 407 => { let a = ea(self); let v = self.r(rt); self.st(m, a, match xo { 149 => 8, 151 => 4, 215 => 1, _ => 2 }, v)?; }
            181 | 183 | 247 | 439 => { let a = eau(self); let v = self.r(rt); self.st(m, a, match xo { 181 => 8, 183 => 4, 247 => 1, _ => 2 }, v)?; self.w(ra, a); }
            532 | 534 | 790 => { let a = ea(self); let v = match xo { 532 => { self.need(7, "ldbrx")?; self.ld(m, a, 8)?.swap_bytes() } 534 => (self.ld(m, a, 4)? as u32).swap_bytes() as u64, _ => (self.ld(m, a, 2)? as u16).swap_bytes() as u64 }; self.w(rt, v); }
            660 | 662 | 918 => { let a = ea(self); let v = self.r(rt); match xo { 660 => { self.need(7, "stdbrx")?; self.st(m, a, 8, v.swap_bytes())? } 662 => self.st(m, a, 4, (v as u32).swap_bytes() as u64)?, _ => self.st(m, a, 2, (v as u16).swap_bytes() as u64)? } }
            535 => { let a = ea(self); let v = self.ld(m, a, 4)?; self.wfd(rt, widen(v as u32)); }
            599 => { let a = ea(self); let v = self.ld(m, a, 8)?; self.wfd(rt, v); }
            663 => { let a = ea(self); let v = narrow(self.fd(rt)); self.st(m, a, 4, v as u64)?; }
            727 => { let a = ea(self); let v = self.fd(rt); self.st(m, a, 8, v)?; }
            855 => { let a = ea(self); let v = self.ld(m, a, 4)? as i32 as u64; self.wfd(rt, v); }
            887 => { self.need(7, "lfiwzx")?; let a = ea(self); let v = self.ld(m, a, 4)?; self.wfd(rt, v); }
            983 => { let a = ea(self); let v = self.fd(rt) as u32; self.st(m, a, 4, v as u64)?; }
            // vectors
            6 | 38 => { let n = ea(self) as u32 & 15; let n = if xo == 6 { n } else { 16 - n }; let mut v = 0u128; for i in 0..16 { v = v << 8 | (n + i) as u128; } self.v[32 + rt as usize] = v; }
            103 | 359 => { let a = ea(self) & !15; let v = self.lvec(m, a, 16)?; self.v[32 + rt as usize] = v; }
            231 | 487 => { let a = ea(self) & !15; let v = self.v[32 + rt as usize]; self.svec(m, a, 16, v)?; }
            844 | 780 => { self.need(7, "lxv")?; let a = ea(self); let v = self.lvec(m, a, if xo == 844 { 8 } else { 4 })?; self.v[vt as usize] = v; }
            972 | 908 => { self.need(7, "stxv")?; let a = ea(self); let v = self.v[vt as usize]; self.svec(m, a, if xo == 972 { 8 } else { 4 }, v)?; }
            332 => { self.need(7, "lxvdsx")?; let a = ea(self); let v = self.ld(m, a, 8)? as u128; self.v[vt as usize] = v << 64 | v; }
            588 => { self.need(7, "lxsdx")?; let a = ea(self); let v = self.ld(m, a, 8)?; self.wfd(vt, v); }
            716 => { self.need(7, "stxsdx")?; let a = ea(self); let v = self.fd(vt); self.st(m, a, 8, v)?; }
            524 => { self.need(8, "lxsspx")?; let a = ea(self); let v = self.ld(m, a, 4)?; self.wfd(vt, widen(v as u32)); }
            652 => { self.need(8, "stxsspx")?; let a = ea(self); let v = narrow(self.fd(vt)); self.st(m, a, 4, v as u64)?; }
            12 => { self.need(8, "lxsiwzx")?; let a = ea(self); let v = self.ld(m, a, 4)?; self.wfd(vt, v); }
            76 => { self.need(8, "lxsiwax")?; let a = ea(self); let v = self.ld(m, a, 4)? as i32 as u64; self.wfd(vt, v); }
            140 => { self.need(8, "stxsiwx")?; let a = ea(self); let v = self.fd(vt) as u32; self.st(m, a, 4, v as u64)?; }
            51 => { self.need(8, "mfvsrd")?; let v = self.fd(vt); self.w(ra, v); }
            115 => { self.need(8, "mfvsrwz")?; let v = self.fd(vt) as u32; self.w(ra, v as u64); }
            179 => { self.need(8, "mtvsrd")?; let v = self.r(ra); self.wfd(vt, v); }
            211 => { self.need(8, "mtvsrwa")?; let v = self.r(ra) as i32 as u64; self.wfd(vt, v); }
            243 => { self.need(8, "mtvsrwz")?; let v = self.r(ra) as u32; self.wfd(vt, v as u64); }
            // reservations
            20 | 84 | 52 | 116 => {
                if matches!(xo, 52 | 116) { self.need(8, "sub-word load-and-reserve")?; }
                let a = ea(self);
                let v = self.larx(m, a, match xo { 20 => 4, 84 => 8, 52 => 1, _ => 2 })?;
                self.w(rt, v as u64);
            }
            276 => { self.need(8, "lqarx")?; let a = ea(self); let v = self.larx(m, a, 16)?; self.w(rt, (v >> 64) as u64); self.w(rt | 1, v as u64); }
            150 | 214 | 694 | 726 if rcb => {
                if matches!(xo, 694 | 726) { self.need(8, "sub-word store-conditional")?; }
                let a = ea(self);
                let v = self.r(rt) as u128;
                self.stcx(m, a, match xo { 150 => 4, 214 => 8, 694 => 1, _ => 2 }, v)?;
            }
            182 if rcb => { self.need(8, "stqcx.")?; let a = ea(self); let v = (self.r(rt) as u128) << 64 | self.r(rt | 1) as u128; self.stcx(m, a, 16, v)?; }
            598 => match rt & 3 {
                // lwsync: everything but a store with a later load
                1 => { m.fence(true, false, true, true)?; m.fence(true, true, false, true)?; }
                _ => m.fence(true, true, true, true)?,
            },
            278 | 246 | 86 | 54 => {}
            _ => return Err(Trap::Unknown(self.pc, format!("{x:08x}"))),
        }
        Ok(())
    }
    fn vsx(&mut self, x: u32) -> R<()> {
        self.need(7, "VSX")?;
        let t = (x >> 21 & 31 | (x & 1) << 5) as usize;
        let ai = x >> 16 & 31 | (x >> 2 & 1) << 5;
        let bi = x >> 11 & 31 | (x >> 1 & 1) << 5;
        let (a, b) = (self.v[ai as usize], self.v[bi as usize]);
        let (fa, fb, ft) = (self.fd(ai), self.fd(bi), self.fd(t as u32));
        let xo8 = x >> 3 & 0xff;
        if xo8 & 6 == 6 {
            let c = self.v[(x >> 6 & 31 | (x >> 3 & 1) << 5) as usize];
            self.v[t] = a & !c | b & c;
            return Ok(());
        }
        let lo = u64::MAX as u128;
        match xo8 {
            0 | 8 | 16 | 24 => { self.need(8, "xs*sp")?; self.wfd(t as u32, arith(xo8 >> 3, fa, fb, true)); }
            32 | 40 | 48 | 56 => self.wfd(t as u32, arith((xo8 >> 3) - 4, fa, fb, false)),
            35 | 43 => { let c = fcmp(fa, fb); self.setcr(x >> 23 & 7, c); }
            1 | 17 | 33 | 49 | 129 | 145 | 161 | 177 => self.wfd(t as u32, fma(fa, fb, ft, xo8 & 16 != 0, xo8 & 128 != 0, xo8 & 32 == 0)),
            9 | 25 | 41 | 57 | 137 | 153 | 169 | 185 => self.wfd(t as u32, fma(fa, ft, fb, xo8 & 16 != 0, xo8 & 128 != 0, xo8 & 32 == 0)),
            160 => self.wfd(t as u32, maxmin(fa, fb, true)),
            168 => self.wfd(t as u32, maxmin(fa, fb, false)),
            176 => self.wfd(t as u32, fb & !(1 << 63) | fa & 1 << 63),
            130 => self.v[t] = a & b,
            138 => self.v[t] = a & !b,
            146 => self.v[t] = a | b,
            154 => self.v[t] = a ^ b,
            162 => self.v[t] = !(a | b),
            170 => self.v[t] = a | !b,
            178 => self.v[t] = !(a & b),
            186 => self.v[t] = !(a ^ b),
            18 | 50 => {
                let (p, q) = if xo8 == 18 { (a >> 64, b >> 64) } else { (a & lo, b & lo) };
                self.v[t] = (p >> 32 & 0xffff_ffff) << 96 | (q >> 32 & 0xffff_ffff) << 64 | (p & 0xffff_ffff) << 32 | q & 0xffff_ffff;
            }
            k if k & 0x9f == 10 => { let dm = k >> 5 & 3; self.v[t] = (if dm & 2 != 0 { a & lo } else { a >> 64 }) << 64 | if dm & 1 != 0 { b & lo } else { b >> 64 }; }
            k if k & 0x9f == 2 => { let s = (k >> 5 & 3) * 32; self.v[t] = if s == 0 { a } else { a << s | b >> (128 - s) }; }
            _ => match x >> 2 & 0x1ff {
                345 => self.wfd(t as u32, fb & !(1 << 63)),
                361 => self.wfd(t as u32, fb | 1 << 63),
                377 => self.wfd(t as u32, fb ^ 1 << 63),
                331 => { self.need(8, "xscvspdpn")?; self.wfd(t as u32, widen((fb >> 32) as u32)); }
                267 => { self.need(8, "xscvdpspn")?; let v = narrow(fb) as u64; self.wfd(t as u32, v << 32 | v); }
                329 => { let v = widen((fb >> 32) as u32); self.wfd(t as u32, if isnan(v) { v | Q64 } else { v }); }
                265 => { let v = narrow(rsp(fb)) as u64; self.wfd(t as u32, v << 32 | v); }
                281 => { self.need(8, "xsrsp")?; self.wfd(t as u32, rsp(fb)); }
                296 => self.wfd(t as u32, widen((fb as f32).to_bits())),
                312 => self.wfd(t as u32, widen((fb as i64 as f32).to_bits())),
                360 => self.wfd(t as u32, (fb as f64).to_bits()),
                376 => self.wfd(t as u32, (fb as i64 as f64).to_bits()),
                344 => self.wfd(t as u32, f64::from_bits(fb) as i64 as u64),
                328 => self.wfd(t as u32, f64::from_bits(fb) as u64),
                88 => { let v = f64::from_bits(fb) as i32 as u32 as u64; self.wfd(t as u32, v << 32 | v); }
                72 => { let v = f64::from_bits(fb) as u32 as u64; self.wfd(t as u32, v << 32 | v); }
                164 => { let w = b >> (96 - 32 * (x >> 16 & 3)) & 0xffff_ffff; self.v[t] = w | w << 32 | w << 64 | w << 96; }
                k @ (248 | 232) => {
                    let (p, q) = ((b >> 96) as u32, (b >> 32) as u32);
                    let c = |v: u32| if k == 248 { v as i32 as f64 } else { v as f64 };
                    self.v[t] = (c(p).to_bits() as u128) << 64 | c(q).to_bits() as u128;
                }
                _ => return Err(Trap::Unknown(self.pc, format!("{x:08x}"))),
            },
        }
        Ok(())
    }
    fn vmx(&mut self, x: u32) -> R<()> {
        let t = 32 + (x >> 21 & 31) as usize;
        let (a, b) = (self.v[32 + (x >> 16 & 31) as usize], self.v[32 + (x >> 11 & 31) as usize]);
        let byte = |v: u128, i: u32| (v >> (120 - 8 * i)) as u8;
        if x & 0x20 != 0 {
            let c = self.v[32 + (x >> 6 & 31) as usize];
            self.v[t] = match x & 0x3f {
                42 => a & !c | b & c,
                43 => { let mut v = 0u128; for i in 0..16 { let k = byte(c, i) as u32 & 31; v = v << 8 | if k < 16 { byte(a, k) } else { byte(b, k - 16) } as u128; } v }
                44 => { let s = (x >> 6 & 15) * 8; if s == 0 { a } else { a << s | b >> (128 - s) } }
                _ => return Err(Trap::Unknown(self.pc, format!("{x:08x}"))),
            };
            return Ok(());
        }
        let xo = x & 0x7ff;
        let w4 = |k: u32| 8u32 << k;
        let all = |c: bool| if c { u128::MAX } else { 0 };
        // compares may record into CR6
        if matches!(xo & 0x3ff, 6 | 70 | 134 | 199 | 518 | 582 | 646 | 711 | 774 | 838 | 902 | 967) {
            let k = xo & 0x3ff;
            let w = match k & 0xff { 6 => 8, 70 => 16, 134 => 32, _ => 64 };
            let r = match k { 6 | 70 | 134 | 199 => lanes(a, b, w, &|p, q| all(p == q)), 518 | 582 | 646 | 711 => lanes(a, b, w, &|p, q| all(p > q)), _ => lanes(a, b, w, &|p, q| all(sx(p, w) > sx(q, w))) };
            self.v[t] = r;
            if xo & 0x400 != 0 { self.setcr(6, if r == u128::MAX { 8 } else if r == 0 { 2 } else { 0 }); }
            return Ok(());
        }
        self.v[t] = match xo {
            0 | 64 | 128 | 192 => lanes(a, b, w4(xo >> 6), &|p, q| p.wrapping_add(q)),
            1024 | 1088 | 1152 | 1216 => lanes(a, b, w4((xo >> 6) - 16), &|p, q| p.wrapping_sub(q)),
            4 | 68 | 132 | 196 => { let w = w4(xo >> 6); lanes(a, b, w, &|p, q| { let n = q as u32 & (w - 1); if n == 0 { p } else { p << n | p >> (w - n) } }) }
            260 | 324 | 388 | 1476 => { let w = match xo { 260 => 8, 324 => 16, 388 => 32, _ => 64 }; lanes(a, b, w, &|p, q| p << (q as u32 & (w - 1))) }
            516 | 580 | 644 | 1732 => { let w = match xo { 516 => 8, 580 => 16, 644 => 32, _ => 64 }; lanes(a, b, w, &|p, q| p >> (q as u32 & (w - 1))) }
            772 | 836 | 900 | 964 => { let w = match xo { 772 => 8, 836 => 16, 900 => 32, _ => 64 }; lanes(a, b, w, &|p, q| (sx(p, w) >> (q as u32 & (w - 1))) as u128) }
            1028 => a & b,
            1092 => a & !b,
            1156 => a | b,
            1220 => a ^ b,
            1284 => !(a | b),
            1348 => a | !b,
            1412 => !(a & b),
            1668 => !(a ^ b),
            524 | 588 | 652 => { let w = w4((xo - 524) >> 6); let n = 128 / w; let i = x >> 16 & (n - 1); let e = b >> (128 - w * (i + 1)); lanes(0, 0, w, &|_, _| e) }
            780 | 844 | 908 => { let w = w4((xo - 780) >> 6); let i = (((x >> 16 & 31) << 27) as i32 >> 27) as i128 as u128; lanes(0, 0, w, &|_, _| i) }
            8 | 72 | 136 => { let w = w4(xo >> 6) * 2; lanes(a, b, w, &|p, q| (p & ((1 << (w / 2)) - 1)) * (q & ((1 << (w / 2)) - 1))) }
            520 | 584 | 648 => { let w = w4((xo - 520) >> 6) * 2; lanes(a, b, w, &|p, q| (p >> (w / 2)) * (q >> (w / 2))) }
            14 | 78 | 1102 => {
                let w = match xo { 14 => 16, 78 => 32, _ => 64 };
                let h = w / 2;
                let mut v = 0u128;
                for s in [a, b] { for i in 0..128 / w { v = v << h | s >> (128 - w * (i + 1)) & ((1 << h) - 1); } }
                v
            }
            12 | 76 | 140 | 268 | 332 | 396 => {
                let lowh = xo >= 268;
                let w = w4((xo & 0xff) >> 6);
                let n = 64 / w;
                let mut v = 0u128;
                for i in 0..n { let j = if lowh { n + i } else { i }; let e = |s: u128| s >> (128 - w * (j + 1)) & ((1u128 << w) - 1); v = v << w | e(a); v = v << w | e(b); }
                v
            }
            526 | 590 | 1614 | 654 | 718 | 1742 => {
                let (h, lowh) = match xo { 526 => (8, false), 590 => (16, false), 1614 => (32, false), 654 => (8, true), 718 => (16, true), _ => (32, true) };
                let s = if lowh { b << 64 } else { b };
                let mut v = 0u128;
                for i in 0..64 / h { v = v << (2 * h) | (sx(s >> (128 - h * (i + 1)) & ((1u128 << h) - 1), h) as u128) & ((1u128 << (2 * h)) - 1); }
                v
            }
            _ => return Err(Trap::Unknown(self.pc, format!("{x:08x}"))),
        };
        Ok(())
    }

    // ---------------------------------------------------------------- calls
    fn mark(i: u64) -> u64 { 0xA5A5_0000_5A5A_0000 | i * 0x0101 }
    const CRM: u8 = 0b0101;
    pub fn start_call(&mut self, m: &mut Mem, f: u64, args: &[u64], sp: u64, ret: u64) {
        for i in 0..32 { self.g[i] = Self::mark(i as u64); }
        for i in 0..64 { self.v[i] = (0x1234_5678_0000_0000u128 | i as u128) << 64 | 0x77; }
        self.cr = [Self::CRM; 8];
        self.dep = [0; 32];
        self.crdep = [0; 8];
        self.cadep = 0;
        self.ctrl = 0;
        for (i, a) in args.iter().enumerate() { if i < 8 { self.g[3 + i] = *a; } }
        let sp = (sp & !15) - 160 - 64;
        for (i, a) in args.iter().enumerate().skip(8) { m.poke_private(sp + 96 + 8 * (i as u64 - 8), 8, *a as u128); }
        self.g[1] = sp;
        self.g[12] = f;
        self.lr = ret;
        self.pc = f;
    }
    pub fn check_saved(&self, sp0: u64, _nargs: usize) -> Option<String> {
        for i in (14..32u64).chain([13]) {
            if self.g[i as usize] != Self::mark(i) { return Some(format!("callee-saved register r{i} changed from {:#x} to {:#x}", Self::mark(i), self.g[i as usize])); }
        }
        for i in 14..32u64 {
            let want = 0x1234_5678_0000_0000u64 | i;
            if self.fd(i as u32) != want { return Some(format!("callee-saved register f{i} changed from {want:#x} to {:#x}", self.fd(i as u32))); }
        }
        for i in 52..64usize {
            let want = (0x1234_5678_0000_0000u128 | i as u128) << 64 | 0x77;
            if self.v[i] != want { return Some(format!("callee-saved register v{} changed from {want:#x} to {:#x}", i - 32, self.v[i])); }
        }
        for i in 2..5 { if self.cr[i] != Self::CRM { return Some(format!("callee-saved register cr{i} changed to {:#x}", self.cr[i])); } }
        let sp = (sp0 & !15) - 160 - 64;
        if self.g[1] != sp { return Some(format!("stack pointer is {:#x} after return, expected {sp:#x}", self.g[1])); }
        None
    }
    pub fn arg(&self, m: &Mem, i: usize) -> u64 { if i < 8 { self.g[3 + i] } else { m.peek(self.g[1] + 96 + 8 * (i as u64 - 8), 8) as u64 } }
    pub fn do_return(&mut self, _m: &Mem, v: u64) {
        self.pc = self.lr;
        for i in [0, 4, 5, 6, 7, 8, 9, 10, 11, 12] { self.g[i] = 0xC0C0_C0C0_C0C0_C0C0; self.dep[i] = 0; }
        for i in (0..14).chain(32..52) { self.v[i] = 0xC0C0_C0C0; }
        for i in [0, 1, 5, 6, 7] { self.cr[i] = 5; }
        self.ctr = 0xC0C0_C0C0;
        self.ca = true;
        self.g[3] = v;
        self.dep[3] = 0;
    }
    pub fn sp(&self) -> u64 { self.g[1] }
}
