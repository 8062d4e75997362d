//! The properties' scenarios.
use crate::a64::A64Feat;
use crate::configs::get;
use crate::cpu::CpuFeat;
use crate::engine::*;
use crate::gen::*;
use crate::guest::{Arch, Cfg};
use crate::litmus::{self, Shape};
use crate::mem::Model;
use crate::ops::*;
use crate::runner::*;
use crate::util::Rng;

pub const NATIVE: [Ty; 10] = [I8, U8, I16, U16, I32, U32, I64, U64, Isize, Usize];
pub const WIDE: [Ty; 2] = [I128, U128];
const RULE: &str = "random small programs (operations, values, orderings, object placement) x random schedules and faults; a run counts as non-trivial when at least two CPUs or interrupts interleaved, or a fault was injected, or one CPU made three or more operations, and its hash is new";

/// CPU capabilities a run is simulated with.
#[derive(Clone, Copy, PartialEq)]
pub enum Feat { Full, Rand, No16 }
pub fn pick_feat(cfg: &Cfg, f: Feat, r: &mut Rng) -> CpuFeat {
    let mut c = CpuFeat::default();
    match cfg.arch {
        Arch::X64 | Arch::X32 | Arch::X86 => {
            let x = &mut c.x86;
            match f {
                Feat::Full => {}
                Feat::No16 => x.cx16 = false,
                Feat::Rand => {
                    x.vendor = **r.pick(&[b"GenuineIntel", b"AuthenticAMD", b"CentaurHauls", b"  Shanghai  ", b"HygonGenuine"]);
                    x.cx16 = r.chance(0.75);
                    x.avx = r.chance(0.7);
                    x.osxsave = r.chance(0.75);
                    x.xcr0 = if x.osxsave { *r.pick(&[7, 7, 7, 3, 1, 5, 0xe7, 0]) } else { 7 };
                    x.vec16_atomic = x.avx;
                }
            }
            // what the guest was compiled for is always there
            let has = |n: &str| cfg.flags.iter().any(|f| f.contains(n));
            x.cx16 |= has("+cmpxchg16b");
            if has("+avx") || has(",+avx") { x.avx = true; x.osxsave = true; x.xcr0 = 7; x.vec16_atomic = true; }
        }
        Arch::A64 => {
            // features the guest was compiled for are always there
            let has = |n: &str| cfg.flags.iter().any(|f| f.contains(n));
            let x = &mut c.a64;
            match f {
                Feat::Full => {}
                Feat::No16 => *x = A64Feat::from_bits(0),
                Feat::Rand => {
                    *x = A64Feat::from_bits(match r.below(8) { 0 => 0, 1 => 1, 2 => 0x7, 3 => 0xf, 4 => 0x1f, 5 => 0x2f, 6 => 0x3f, _ => r.below(64) });
                    if x.rcpc3 { x.rcpc2 = true; }
                    if x.rcpc2 { x.rcpc = true; }
                    if x.lse128 { x.lse = true; }
                    if r.chance(0.15) { x.report = 1 + r.below(3) as u8; }
                    // big cores of this SoC lack LSE, and the kernel reports it
                    if cfg.triple.contains("android") && r.chance(0.15) { *x = A64Feat { report: 4, ..A64Feat::from_bits(0) }; }
                }
            }
            x.lse |= has("+lse");
            x.lse2 |= has("lse2");
            x.rcpc |= has("rcpc");
            x.rcpc2 |= has("rcpc2") || has("rcpc3");
            x.rcpc3 |= has("rcpc3");
            x.lse128 |= has("lse128");
            x.lsfe |= has("lsfe");
        }
        Arch::Rv64 | Arch::Rv32 => {
            let has = |n: &str| cfg.flags.iter().any(|f| f.contains(n));
            let x = &mut c.rv;
            let gc = cfg.triple.contains("gc-");
            x.fd = gc;
            x.lrsc = cfg.triple.contains("imac") || gc;
            x.zabha = has("zabha");
            x.zacas = has("zacas") || cfg.triple.contains("linux") && f != Feat::No16 && (f == Feat::Full || r.chance(0.6));
            x.amo = x.lrsc || has("zaamo") || cfg.feats.contains(&"force-amo") || x.zabha;
            x.smode = cfg.feats.contains(&"s-mode");
            x.status = r.next() as u32;
            if f == Feat::Rand && r.chance(0.25) { x.report = 1 + r.below(4) as u8; }
        }
        Arch::Arm | Arch::Thumb => {
            let x = &mut c.arm;
            x.m = cfg.arch == Arch::Thumb;
            x.ver = if cfg.triple.contains("v4t") { 4 } else if cfg.triple.contains("v5te") { 5 } else if cfg.triple.contains("v6") { 6 } else { 7 };
            x.fiq = cfg.feats.contains(&"disable-fiq");
            x.status = *r.pick(&[0x13, 0x1f, 0x12, 0x17, 0x1b, 0x13, 0x53, 0x5f]);
            x.kuser = if !cfg.triple.contains("linux") || x.ver >= 7 { 0 } else if f == Feat::No16 { 4 } else if f == Feat::Full { 5 } else { *r.pick(&[3, 4, 5, 5, 5, 6]) };
        }
        Arch::Ppc64 => {
            let x = &mut c.ppc;
            let p8 = cfg.triple.contains("64le") || cfg.flags.iter().any(|f| f.contains("pwr8"));
            x.level = if p8 || f == Feat::Full { 8 } else if f == Feat::No16 { *r.pick(&[4, 7]) } else { *r.pick(&[4, 7, 8, 8, 8]) };
            if f == Feat::Rand && r.chance(0.25) { x.report = 1 + r.below(2) as u8; }
        }
        Arch::S390x => {
            let has = |n: &str| cfg.flags.iter().any(|f| f.contains(n));
            c.s390.level = if has("z15") { 13 } else if has("z196") { 9 } else if f == Feat::Rand { *r.pick(&[8, 9, 13]) } else { 8 };
        }
        Arch::Avr => { c.avr.status = r.below(128) as u8; c.avr.xmega = cfg.flags.iter().any(|f| f.contains("xmega")); c.avr.rmw = c.avr.xmega; }
        Arch::Msp430 => c.msp.status = *r.pick(&[0, 0, 0x40, 0x80, 0xc0]),
    }
    c
}
pub struct B { s: Vec<Scen>, pub cfg: String, feat: Feat }
impl B {
    fn new() -> B { B { s: vec![], cfg: "x64".into(), feat: Feat::Rand } }
    fn on(&mut self, cfg: &str, f: Feat) -> &mut B { self.cfg = cfg.into(); self.feat = f; self }
    /// A scenario from a generator and an evaluator.
    fn raw(&mut self, name: &str, quick: u64, g: impl Fn(&mut World, &mut Rng) -> Prog + Send + Sync + 'static, e: impl Fn(&World, &Prog, &Run) -> Option<Viol> + Send + Sync + 'static) -> &mut B {
        let feat = self.feat;
        let cfg = get(&self.cfg);
        let c2 = cfg.clone();
        self.s.push(Scen {
            name: format!("{}:{name}", self.cfg), cfg, quick, thorough: quick * 60,
            gen: Box::new(move |w, r| { let f = pick_feat(&c2, feat, r); w.feat = f.clone(); let mut p = g(w, r); if one_core_cfg(&c2) { one_core(&mut p); } let h = p.feat.x86_hide; p.feat = f; p.feat.x86_hide = h; p }),
            eval: Box::new(e),
        });
        self
    }
    fn litmus(&mut self, name: &str, s: Shape, m: Model, quick: u64) -> &mut B {
        self.raw(name, quick, move |w, r| { let t: &[Ty] = if w.has_ty(F16) { &[F16, F32, F64, F128] } else { match r.below(4) { 0 => &WIDE, 1 => &NATIVE, _ => &ALL_TY } }; let mut p = litmus::gen(w, r, t, s, m); near_wrap(w, r, &mut p); p }, litmus::eval)
    }
    /// Operations compiled together with plain accesses of their caller.
    fn fused(&mut self, s: Shape, m: Model, quick: u64) -> &mut B {
        let one = one_core_cfg(&get(&self.cfg));
        self.raw("fused", quick, move |w, r| { let mut p = litmus::fused(w, r, s, m, one); near_wrap(w, r, &mut p); p }, litmus::eval)
    }
    fn wait(&mut self, quick: u64) -> &mut B {
        let one = one_core_cfg(&get(&self.cfg));
        self.raw("wait", quick, move |w, r| litmus::wait(w, r, one), |w, p, r| std_eval(w, p, r, true, true))
    }
    fn lin(&mut self, name: &str, o: GenOpt, quick: u64) -> &mut B {
        let rt = o.model == Model::Sc;
        // on one core, the other threads are interrupt handlers
        let irq = one_core_cfg(&get(&self.cfg)) && o.nth.1 > 1;
        self.raw(name, quick, move |w, r| { if irq { let mut p = irq_prog(w, r, &GenOpt { nth: (1, 1), ..o.clone() }, 3); p.max_slices = 20_000; return p; } let mut p = gen_prog(w, r, &o); locals(w, r, &mut p); p }, move |w, p, r| std_eval(w, p, r, rt, true))
    }
    fn starve16(&mut self, quick: u64) -> &mut B { let o = GenOpt { nth: (2, 3), ..g(&WIDE) }; self.raw("starve16", quick, move |w, r| starve_prog(w, r, &o), |w, p, r| std_eval(w, p, r, true, true)) }
    /// One CPU interfered with at every step, for hundreds of rounds.
    fn starve(&mut self, o: GenOpt, quick: u64) -> &mut B {
        if one_core_cfg(&get(&self.cfg)) { return self; }
        self.raw("starve", quick, move |w, r| starve_prog(w, r, &o), |w, p, r| std_eval(w, p, r, true, true))
    }
}
/// In single-threaded programs some operations act on a local copy.
fn locals(w: &World, r: &mut Rng, p: &mut Prog) {
    if p.threads.len() != 1 || !p.irqs.is_empty() { return; }
    for c in p.threads[0].iter_mut() {
        if !r.chance(0.3) || c.op == Op::AsPtr || c.clo.as_ref().is_some_and(|x| x.nested.is_some() || x.panic_at != 0 || x.ret == CloRet::Panic) || !valid_ord(c.op, c.o1, c.o2) { continue; }
        c.local = true;
        if !w.has(c) { c.local = false; }
    }
}
/// Lock version counters just below the point where they wrap.
fn near_wrap(w: &mut World, r: &mut Rng, p: &mut Prog) {
    if !r.chance(0.2) { return; }
    for i in 0..p.objs.len() {
        let (ty, off) = (p.objs[i].ty, p.objs[i].off);
        if w.size(ty) <= w.sem.word { continue; }
        let Some(l) = w.lock_word(ty, off) else { continue };
        let mask = mask_bits(l.size * 8) as u64;
        p.pokes.push(("@".into(), l.lo, l.size, (l.v1.wrapping_sub(l.delta.wrapping_mul(r.below(4) + 1)) & mask) as u128));
    }
}
fn one_core_cfg(c: &Cfg) -> bool { c.feats.contains(&"single-core") || c.arch == Arch::Msp430 && !c.feats.contains(&"cs") || c.arch == Arch::Avr && !c.feats.contains(&"cs") }
/// A guest built for one core runs everything on one CPU.
fn one_core(p: &mut Prog) {
    if p.threads.len() < 2 { return; }
    p.threads = vec![p.threads.drain(..).flatten().collect()];
    p.strat = Strat::Rand(100);
    p.stalls.clear();
    p.freeze.clear();
    p.loops = 0;
}
fn g(tys: &[Ty]) -> GenOpt { GenOpt::new(tys) }
fn only(tys: &[Ty], ops: &[Op]) -> GenOpt { GenOpt { ops: Some(ops.to_vec()), ..GenOpt::new(tys) } }
fn single(o: GenOpt) -> GenOpt { GenOpt { nth: (1, 1), nop: (4, 8), ..o } }

fn weak_cfgs() -> Vec<(&'static str, Feat, Model, u64)> {
    vec![
        ("x64", Feat::Rand, Model::Tso, 60_000),
        ("x64-noout", Feat::Full, Model::Tso, 10_000),
        ("x86", Feat::Full, Model::Tso, 30_000),
        ("a64", Feat::Rand, Model::Weak, 80_000),
        ("a64-lse", Feat::Rand, Model::Weak, 40_000),
        ("a64-lse2", Feat::Rand, Model::Weak, 40_000),
        ("a64-llsc", Feat::Rand, Model::Weak, 20_000),
        ("rv64", Feat::Rand, Model::Weak, 60_000),
        ("rv64-zacas", Feat::Rand, Model::Weak, 30_000),
        ("rv32", Feat::Full, Model::Weak, 30_000),
        ("a64-rcpc3", Feat::Rand, Model::Weak, 30_000),
        ("a64-lse128", Feat::Rand, Model::Weak, 30_000),
        ("a64-lse128n", Feat::Rand, Model::Weak, 30_000),
        ("rv32-zacas", Feat::Full, Model::Weak, 20_000),
        ("rv32gc", Feat::Rand, Model::Weak, 20_000),
        ("rv32i", Feat::Full, Model::Weak, 10_000),
        ("rv32-za", Feat::Full, Model::Weak, 20_000),
        ("rv32-zab", Feat::Full, Model::Weak, 10_000),
        ("rv64-za", Feat::Full, Model::Weak, 20_000),
        ("v5te", Feat::Rand, Model::Weak, 30_000),
        ("v7", Feat::Full, Model::Weak, 30_000),
        ("v8mb-priv", Feat::Full, Model::Weak, 15_000),
        ("v6m", Feat::Full, Model::Weak, 5_000),
        ("x64-cx16", Feat::Rand, Model::Tso, 10_000),
        ("x64-cx16-avx", Feat::Rand, Model::Tso, 10_000),
        ("x64-none", Feat::Rand, Model::Tso, 10_000),
        ("x64-l15", Feat::Rand, Model::Tso, 10_000),
        ("a64-llsc0", Feat::Rand, Model::Weak, 10_000),
        ("a64-lse2only", Feat::Rand, Model::Weak, 20_000),
        ("a64-l15", Feat::Rand, Model::Weak, 15_000),
        ("a64-l15d", Feat::Rand, Model::Weak, 10_000),
        ("a64-rcpc3only", Feat::Rand, Model::Weak, 10_000),
        ("ppc64le", Feat::Rand, Model::Weak, 30_000),
        ("ppc64", Feat::Rand, Model::Weak, 20_000),
        ("ppc64le-dbg", Feat::Rand, Model::Weak, 10_000),
        ("s390x", Feat::Rand, Model::Tso, 20_000),
        ("s390x-z15", Feat::Full, Model::Tso, 10_000),
        ("x64-noasm", Feat::Rand, Model::Tso, 10_000),
        ("x64-windows", Feat::Rand, Model::Tso, 20_000),
        ("a64-msvc", Feat::Rand, Model::Weak, 10_000),
        ("x32", Feat::Rand, Model::Tso, 10_000),
        ("x64-tsan", Feat::Rand, Model::Tso, 10_000),
        ("x64-old", Feat::Rand, Model::Tso, 10_000),
        ("a64-old", Feat::Rand, Model::Weak, 10_000),
        ("a64be", Feat::Rand, Model::Weak, 20_000),
        ("x64-f16", Feat::Rand, Model::Tso, 10_000),
        ("a64-f16", Feat::Rand, Model::Weak, 20_000),
        ("a64-lsfe", Feat::Rand, Model::Weak, 20_000),
    ]
}
/// Guests whose wrappers inline operations between plain accesses.
fn fused_cfgs() -> Vec<(&'static str, Feat, Model, u64)> {
    use Model::*;
    vec![
        ("x64-fuse", Feat::Rand, Tso, 30_000), ("x64-cx16-fuse", Feat::Full, Tso, 30_000), ("x64-cx16-avx-fuse", Feat::Rand, Tso, 20_000), ("x64-cx16-noout-fuse", Feat::Rand, Tso, 20_000), ("x86-fuse", Feat::Full, Tso, 20_000), ("a64-fuse", Feat::Rand, Weak, 30_000), ("a64-lse2-fuse", Feat::Rand, Weak, 20_000),
        ("a64-noout-fuse", Feat::Rand, Weak, 20_000), ("a64-lse128-fuse", Feat::Full, Weak, 20_000), ("a64-lse-fuse", Feat::Rand, Weak, 20_000), ("a64-rcpc3-fuse", Feat::Rand, Weak, 20_000), ("a64-l15-fuse", Feat::Rand, Weak, 20_000), ("rv64-zacas-fuse", Feat::Rand, Weak, 20_000), ("rv32-fuse", Feat::Full, Weak, 20_000), ("v5te-fuse", Feat::Full, Weak, 20_000), ("s390x-fuse", Feat::Full, Tso, 20_000), ("ppc64le-fuse", Feat::Full, Weak, 20_000),
        ("rv32i-sc-fuse", Feat::Full, Sc, 30_000), ("rv32i-cs-fuse", Feat::Full, Sc, 10_000), ("rv32-priv-fuse", Feat::Full, Weak, 10_000), ("v6m-sc-fuse", Feat::Full, Sc, 30_000), ("v4t-sc-fuse", Feat::Full, Sc, 20_000), ("msp430-fuse", Feat::Full, Sc, 20_000), ("avr-fuse", Feat::Full, Sc, 20_000),
        ("rv32i-amo-fuse", Feat::Full, Sc, 20_000), ("avr-xmega-fuse", Feat::Full, Sc, 20_000),
    ]
}
pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24"];

pub fn check(id: &str) -> Option<Check> {
    use Op::*;
    let id = IDS.iter().find(|x| **x == id)?;
    let mut b = B::new();
    let mut wide: Vec<Ty> = WIDE.to_vec();
    wide.extend([I64, U32]);
    match *id {
        "C01" => {
            for (c, k) in [("x64", 100_000), ("x64-dbg", 30_000), ("x86", 60_000), ("a64", 60_000), ("a64-dbg", 20_000), ("a64-lse", 30_000), ("rv64", 40_000), ("rv32", 40_000), ("rv32gc", 10_000), ("rv64-za", 20_000), ("rv32-zab", 20_000), ("v5te", 30_000), ("v7", 20_000), ("v8mb-priv", 20_000), ("x64-l15", 10_000), ("x86-l15", 10_000), ("x64-none", 10_000), ("a64-llsc0", 10_000), ("x64-old", 10_000), ("x86-noasm", 10_000), ("a64-old", 10_000), ("a64be", 10_000), ("x64-noasm", 10_000), ("a64-noasm", 10_000), ("s390x", 10_000), ("ppc64le", 10_000), ("ppc64", 10_000), ("x32", 10_000), ("x64-windows", 10_000), ("rv32i-sc", 20_000), ("v6m-sc", 20_000), ("msp430", 10_000), ("avr", 10_000), ("rv32i-cs", 20_000), ("v6m-cs", 10_000)] {
                b.on(c, Feat::Full).lin("conc", g(&NATIVE), k).lin("seq", single(g(&NATIVE)), k).lin("multi", GenOpt { nobj: (2, 3), nth: (2, 4), same_ty: false, ..g(&NATIVE) }, k / 2).starve(g(&NATIVE), k / 8);
            }
        }
        "C02" => {
            for (c, f, k) in [("x64", Feat::Rand, 100_000), ("x64-cx16", Feat::Full, 40_000), ("x64-noout", Feat::Full, 20_000), ("x86", Feat::Full, 20_000), ("a64", Feat::Rand, 100_000), ("a64-dbg", Feat::Rand, 20_000), ("a64-lse", Feat::Rand, 40_000), ("a64-lse2", Feat::Rand, 40_000), ("a64-rcpc3", Feat::Rand, 20_000), ("a64-lse128", Feat::Rand, 20_000), ("a64-lse128-dbg", Feat::Rand, 20_000), ("a64-lse128n", Feat::Rand, 20_000), ("a64-lse-dbg", Feat::Rand, 20_000), ("a64-noout", Feat::Full, 30_000), ("a64-llsc", Feat::Rand, 20_000), ("rv64", Feat::Rand, 60_000), ("rv64-zacas", Feat::Full, 40_000), ("rv32", Feat::Full, 20_000), ("v7", Feat::Full, 10_000), ("v5te", Feat::Rand, 10_000), ("x64-avx", Feat::Rand, 20_000), ("x64-cx16-avx", Feat::Rand, 20_000), ("x64-cx16-noout", Feat::Rand, 20_000), ("x64-none", Feat::Rand, 20_000), ("a64-llsc0", Feat::Rand, 20_000), ("a64-lse2only", Feat::Rand, 20_000), ("a64-l15", Feat::Rand, 20_000), ("a64-l15d", Feat::Rand, 20_000), ("a64-rcpc3only", Feat::Rand, 20_000), ("a64be", Feat::Rand, 30_000), ("a64be-lse2", Feat::Rand, 20_000), ("a64be-lse128", Feat::Rand, 20_000), ("x64-old", Feat::Full, 10_000), ("x64-noasm", Feat::Rand, 20_000), ("x64-tsan", Feat::Rand, 20_000), ("x64-cx16-tsan", Feat::Full, 20_000), ("a64-noasm", Feat::Rand, 10_000), ("s390x", Feat::Rand, 40_000), ("s390x-z196", Feat::Full, 15_000), ("s390x-z15", Feat::Full, 15_000), ("s390x-dbg", Feat::Rand, 10_000), ("ppc64le", Feat::Rand, 40_000), ("ppc64", Feat::Rand, 40_000), ("ppc64-p8", Feat::Full, 15_000), ("ppc64le-dbg", Feat::Rand, 10_000), ("x64-windows", Feat::Rand, 20_000), ("x32", Feat::Rand, 20_000), ("x64-windows-cx16", Feat::Rand, 20_000), ("x32-cx16", Feat::Rand, 20_000), ("ppc64-freebsd", Feat::Rand, 10_000), ("a64-uclibc", Feat::Rand, 10_000), ("a64-msvc", Feat::Rand, 10_000), ("rv32i-sc", Feat::Full, 20_000), ("v6m-sc", Feat::Full, 20_000), ("rv32i-cs", Feat::Full, 20_000), ("v6m-cs", Feat::Full, 10_000)] {
                b.on(c, f).lin("conc", g(&WIDE), k).lin("seq", single(g(&WIDE)), k).lin("ldst", GenOpt { nop: (2, 4), ..only(&WIDE, &[Load, Store, FpLoad, FpStore, Swap]) }, k / 2).starve(g(&WIDE), k / 8);
            }
        }
        "C03" => {
            for (c, f) in [("x64-noout", Feat::Full), ("x86", Feat::Full), ("x64", Feat::No16), ("rv32", Feat::Full), ("rv32gc", Feat::No16), ("v5te", Feat::No16), ("v7", Feat::Full), ("v8mb-priv", Feat::Full), ("ppc64-noout", Feat::Full)] {
                b.on(c, f);
                collide(&mut b, 40_000);
                wrap(&mut b, "weak", if c.starts_with('x') { Model::Tso } else { Model::Weak }, if c.starts_with('x') { 8_000 } else { 30_000 });
            }
        }
        "C04" => {
            for (c, f, m, k) in weak_cfgs() { b.on(c, f).litmus("mp", Shape::Mp, m, k).litmus("rand", Shape::Rand, m, k / 2); }
            for (c, f, m, k) in fused_cfgs() { b.on(c, f).fused(Shape::Mp, m, k); }
        }
        "C05" => {
            for (c, f, m, k) in weak_cfgs() { b.on(c, f).litmus("sc", Shape::Sc, m, k).litmus("rand", Shape::Rand, m, k / 2); }
            for (c, f, m, k) in fused_cfgs() { b.on(c, f).fused(Shape::Sc, m, k); }
        }
        "C06" => {
            for (c, f, m, k) in weak_cfgs() { b.on(c, f).litmus("coh", Shape::Coh, m, k).litmus("rand", Shape::Rand, m, k / 2); }
            for (c, f, m, k) in fused_cfgs() { b.on(c, f).fused(Shape::Coh, m, k); }
        }
        "C07" => {
            let cas = [Cas, Cas, CasW, CasW, FpCas, Load, Store, Swap];
            for (c, f, k) in [("x64", Feat::Rand, 80_000), ("x86", Feat::Full, 40_000), ("x64-dbg", Feat::Rand, 30_000), ("a64", Feat::Rand, 60_000), ("a64-lse", Feat::Rand, 30_000), ("a64-lse2", Feat::Rand, 20_000), ("rv64", Feat::Rand, 30_000), ("rv32gc", Feat::Rand, 20_000), ("rv64-zacas", Feat::Rand, 20_000), ("v5te", Feat::Rand, 20_000), ("v7", Feat::Full, 20_000), ("v8mb-priv", Feat::Full, 20_000), ("rv32i-sc", Feat::Full, 10_000), ("v6m-sc", Feat::Full, 10_000), ("x64-old", Feat::Full, 10_000), ("x86-noasm", Feat::Full, 10_000), ("a64-old", Feat::Rand, 10_000), ("x64-tsan", Feat::Rand, 10_000), ("x64-noasm", Feat::Rand, 10_000), ("a64be", Feat::Rand, 20_000), ("a64be-lse128", Feat::Rand, 10_000), ("x64-f16", Feat::Rand, 10_000), ("s390x", Feat::Rand, 20_000), ("s390x-z15", Feat::Full, 10_000), ("ppc64le", Feat::Rand, 20_000), ("ppc64", Feat::Rand, 10_000), ("msp430", Feat::Full, 10_000), ("avr", Feat::Full, 10_000), ("x64-windows", Feat::Rand, 10_000), ("x32", Feat::Rand, 10_000), ("x64-windows-cx16", Feat::Rand, 10_000), ("x32-cx16", Feat::Rand, 10_000), ("rv32i-cs", Feat::Full, 20_000), ("v6m-cs", Feat::Full, 10_000)] {
                b.on(c, f).lin("conc", GenOpt { nop: (2, 4), ..only(&ALL_TY, &cas) }, k).lin("seq", single(only(&ALL_TY, &cas)), k).lin("mix", GenOpt { nop: (1, 3), nth: (2, 4), ..g(&ALL_TY) }, k / 2).starve(only(&ALL_TY, &[Cas, CasW, Cas, FpCas]), k / 8);
            }
        }
        "C08" => {
            let fu = [FetchUpdate, FetchUpdate, FetchUpdate, Load, Store, Swap, FetchXor];
            for (c, f, k) in [("x64", Feat::Rand, 80_000), ("x86", Feat::Full, 40_000), ("x64-dbg", Feat::Rand, 30_000), ("a64", Feat::Rand, 60_000), ("a64-lse2", Feat::Rand, 30_000), ("rv64", Feat::Rand, 20_000), ("rv32", Feat::Full, 20_000), ("v5te", Feat::Rand, 20_000), ("v7", Feat::Full, 20_000), ("rv32i-sc", Feat::Full, 10_000), ("v6m-sc", Feat::Full, 10_000), ("rv32i-cs", Feat::Full, 10_000), ("x64-old", Feat::Full, 10_000), ("x86-noasm", Feat::Full, 10_000), ("a64-old", Feat::Rand, 10_000), ("x64-tsan", Feat::Rand, 10_000), ("a64be", Feat::Rand, 10_000), ("x64-f16", Feat::Rand, 10_000), ("a64-lsfe", Feat::Rand, 10_000), ("s390x", Feat::Rand, 10_000), ("ppc64le", Feat::Rand, 10_000), ("msp430", Feat::Full, 10_000), ("avr", Feat::Full, 10_000), ("x64-windows", Feat::Rand, 10_000), ("x32", Feat::Rand, 10_000), ("v6m-cs", Feat::Full, 10_000)] {
                b.on(c, f).lin("conc", GenOpt { p_clopanic: 0.15, p_nested: 0.3, ..only(&ALL_TY, &fu) }, k).lin("nested", GenOpt { nobj: (2, 3), same_ty: false, p_nested: 0.7, ..only(&ALL_TY, &fu) }, k).lin("seq", single(GenOpt { p_clopanic: 0.2, p_nested: 0.4, ..only(&ALL_TY, &fu) }), k / 2).starve(GenOpt { p_clopanic: 0.0, ..only(&ALL_TY, &[FetchUpdate]) }, k / 8);
            }
        }
        "C09" => {
            for (c, k) in [("x64", 100_000), ("x86", 40_000), ("x64-dbg", 30_000), ("a64", 60_000), ("a64-lse", 30_000), ("rv64-za", 10_000), ("rv32-zab", 10_000), ("rv64", 20_000), ("rv64-zacas", 10_000), ("rv32", 20_000), ("rv32gc", 10_000), ("v5te", 20_000), ("v7", 20_000), ("v8mb-priv", 10_000), ("rv32i-sc", 10_000), ("rv32-sc", 10_000), ("v6m-sc", 10_000), ("v4t-sc", 10_000), ("x64-l15", 10_000), ("x86-l15", 10_000), ("x64-old", 10_000), ("x86-noasm", 10_000), ("a64-old", 10_000), ("s390x", 10_000), ("ppc64le", 10_000), ("msp430", 10_000), ("avr", 10_000), ("rv32i-cs", 20_000), ("v6m-cs", 10_000)] {
                b.on(c, Feat::Full).lin("conc", GenOpt { nop: (2, 5), ..g(&[Bool]) }, k).lin("seq", single(g(&[Bool])), k).lin("packed", GenOpt { nobj: (2, 5), pack: true, nth: (2, 4), same_ty: false, ..g(&[Bool, Bool, U8]) }, k / 2).starve(g(&[Bool]), k / 8);
            }
        }
        "C10" => {
            for (c, k) in [("x64", 100_000), ("x86", 60_000), ("x64-dbg", 30_000), ("a64", 60_000), ("a64-lse", 30_000), ("rv64-za", 10_000), ("rv64", 20_000), ("rv64-zacas", 10_000), ("rv32", 20_000), ("rv32gc", 10_000), ("v5te", 20_000), ("v7", 20_000), ("v8mb-priv", 10_000), ("rv32i-sc", 10_000), ("rv32-sc", 10_000), ("v6m-sc", 10_000), ("v4t-sc", 10_000), ("x64-l15", 10_000), ("x86-l15", 10_000), ("x64-old", 10_000), ("x86-noasm", 10_000), ("a64-old", 10_000), ("s390x", 10_000), ("ppc64le", 10_000), ("msp430", 10_000), ("avr", 10_000), ("x32", 10_000), ("x64-windows", 10_000), ("rv32i-cs", 20_000), ("v6m-cs", 10_000)] { b.on(c, Feat::Full).lin("conc", g(&[Ptr]), k).lin("seq", single(g(&[Ptr])), k).starve(g(&[Ptr]), k / 8); }
        }
        "C11" => {
            for (c, k) in [("x64", 100_000), ("x86", 60_000), ("x64-dbg", 30_000), ("a64", 60_000), ("a64-lse", 30_000), ("rv64-za", 10_000), ("x64-none", 10_000), ("rv64", 20_000), ("rv64-zacas", 10_000), ("rv32", 20_000), ("rv32gc", 10_000), ("v5te", 20_000), ("v7", 20_000), ("v8mb-priv", 10_000), ("rv32i-sc", 10_000), ("rv32-sc", 10_000), ("v6m-sc", 10_000), ("v4t-sc", 10_000), ("x64-l15", 10_000), ("x86-l15", 10_000), ("x64-old", 10_000), ("x86-noasm", 10_000), ("a64-old", 10_000), ("s390x", 10_000), ("s390x-z15", 5_000), ("ppc64le", 10_000), ("ppc64", 10_000), ("x32", 10_000), ("x64-windows", 10_000), ("rv32i-cs", 20_000), ("v6m-cs", 10_000)] { b.on(c, Feat::Full).lin("conc", g(&[F32, F64]), k).lin("seq", single(g(&[F32, F64])), k).starve(g(&[F32, F64]), k / 8); }
            for (c, k) in [("x64-f16", 40_000), ("x64-f16-dbg", 10_000), ("a64-f16", 30_000), ("a64-lsfe", 30_000), ("a64-lsfe-l15", 20_000)] {
                let t = [F16, F128, F16, F128, F32, F64];
                b.on(c, Feat::Rand).lin("conc", g(&t), k).lin("seq", single(g(&t)), k).starve(g(&t), k / 8);
            }
        }
        "C12" => {
            let bits = [BitSet, BitClear, BitToggle, BitSet, BitClear, BitToggle, Load, Store, FetchXor, FetchAnd, FetchAdd];
            let mut t = NATIVE.to_vec();
            t.extend([I128, U128, Ptr, Ptr]);
            for (c, f, k) in [("x64", Feat::Rand, 100_000), ("x86", Feat::Full, 50_000), ("x64-dbg", Feat::Rand, 30_000), ("a64", Feat::Rand, 60_000), ("a64-lse", Feat::Rand, 30_000), ("a64-lse128", Feat::Rand, 20_000), ("rv64", Feat::Rand, 20_000), ("rv64-za", Feat::Rand, 10_000), ("rv32gc", Feat::Rand, 20_000), ("v5te", Feat::Rand, 20_000), ("v7", Feat::Full, 20_000), ("v8mb-priv", Feat::Full, 10_000), ("rv32i-sc", Feat::Full, 10_000), ("rv32-sc", Feat::Full, 10_000), ("v6m-sc", Feat::Full, 10_000), ("x64-l15", Feat::Rand, 30_000), ("x86-l15", Feat::Full, 20_000), ("x64-old", Feat::Full, 10_000), ("x86-noasm", Feat::Full, 10_000), ("a64-old", Feat::Rand, 10_000), ("x64-noasm", Feat::Rand, 10_000), ("a64be", Feat::Rand, 10_000), ("s390x", Feat::Rand, 10_000), ("s390x-z15", Feat::Full, 10_000), ("ppc64le", Feat::Rand, 10_000), ("ppc64", Feat::Rand, 10_000), ("msp430", Feat::Full, 10_000), ("avr", Feat::Full, 10_000), ("rv32i-cs", Feat::Full, 20_000), ("v6m-cs", Feat::Full, 10_000)] { b.on(c, f).lin("conc", GenOpt { nop: (2, 4), ..only(&t, &bits) }, k).lin("seq", single(only(&t, &bits)), k).starve(only(&t, &[BitSet, BitClear, BitToggle]), k / 8); }
        }
        "C13" => {
            for (c, f, k) in [("x64", Feat::Rand, 80_000), ("x64-dbg", Feat::Rand, 40_000), ("x86", Feat::Full, 40_000), ("x64-noout", Feat::Full, 20_000), ("a64", Feat::Rand, 50_000), ("a64-dbg", Feat::Rand, 20_000), ("a64-lse2", Feat::Rand, 20_000), ("rv64", Feat::Rand, 20_000), ("rv32i-sc", Feat::Full, 20_000), ("rv64-za", Feat::Full, 10_000), ("rv32i-cs", Feat::Full, 10_000), ("v5te", Feat::Rand, 20_000), ("v6m-sc", Feat::Full, 20_000), ("v4t-sc", Feat::Full, 20_000), ("v4t-sc-dbg", Feat::Full, 10_000), ("v6m-sc-dbg", Feat::Full, 10_000), ("v4t-cs", Feat::Full, 10_000), ("x64-old", Feat::Full, 10_000), ("x86-noasm", Feat::Full, 10_000), ("a64-old", Feat::Rand, 10_000), ("x64-f16", Feat::Rand, 10_000), ("a64-lsfe", Feat::Rand, 10_000), ("x64-f16-dbg", Feat::Rand, 5_000), ("s390x", Feat::Rand, 10_000), ("s390x-dbg", Feat::Rand, 10_000), ("ppc64le", Feat::Rand, 10_000), ("ppc64le-dbg", Feat::Rand, 10_000), ("msp430", Feat::Full, 10_000), ("avr", Feat::Full, 10_000), ("x64-windows", Feat::Rand, 10_000), ("x32", Feat::Rand, 10_000)] {
                b.on(c, f).lin("bad", GenOpt { p_badord: 0.6, ..g(&ALL_TY) }, k).lin("seq", single(GenOpt { p_badord: 0.5, ..g(&ALL_TY) }), k);
                b.raw("fence", k / 8, |w, r| fence_prog(w, r), |w, p, r| std_eval(w, p, r, true, true));
            }
        }
        "C14" => {
            for (c, f, k) in [("x64", Feat::Rand, 60_000), ("x64-cx16", Feat::Full, 20_000), ("x64-noout", Feat::Full, 10_000), ("x86", Feat::Full, 30_000), ("a64", Feat::Rand, 50_000), ("a64-lse2", Feat::Rand, 20_000), ("rv64", Feat::Rand, 20_000), ("rv32gc", Feat::Rand, 20_000), ("v5te", Feat::Rand, 20_000), ("x64-old", Feat::Rand, 10_000), ("x64-tsan", Feat::Rand, 10_000), ("x64-noasm", Feat::Rand, 10_000), ("a64be", Feat::Rand, 10_000), ("x64-f16", Feat::Rand, 10_000), ("s390x", Feat::Rand, 10_000), ("ppc64le", Feat::Rand, 10_000), ("ppc64", Feat::Rand, 10_000)] { b.on(c, f); freeze(&mut b, k); }
        }
        "C15" => {
            for (c, f, k) in [("x64-noout", Feat::Full, 4_000), ("x86", Feat::Full, 4_000), ("x64", Feat::Rand, 4_000), ("a64", Feat::Rand, 4_000), ("rv64", Feat::Rand, 2_000), ("v5te", Feat::Rand, 2_000), ("v7", Feat::Full, 2_000), ("rv32gc", Feat::Rand, 2_000), ("x64-noasm", Feat::Full, 2_000), ("a64-noasm", Feat::Full, 2_000), ("ppc64-noout", Feat::Full, 2_000)] { b.on(c, f); progress(&mut b, k); b.starve(g(&ALL_TY), k).starve16(k); }
            for (c, f, _, _) in fused_cfgs() { b.on(c, f).wait(3_000); }
        }
        "C16" => {
            for c in ["x64", "x64-dbg", "a64", "a64-dbg", "a64-lse", "rv64", "rv32gc", "v5te", "ppc64"] {
                b.on(c, Feat::Rand);
                let t: &[Ty] = if c.starts_with("rv32") || c.starts_with("v5") { &[I64, U64, F64] } else { &WIDE };
                let o = GenOpt { nth: (2, 4), nop: (1, 3), p_nested: 0.0, p_clopanic: 0.0, ..g(t) };
                b.raw("race", 100_000, move |w, r| gen_prog(w, r, &o), |w, p, r| std_eval(w, p, r, true, true).or_else(|| dispatch_agrees(r)));
                let o = GenOpt { nth: (2, 4), nop: (1, 3), p_nested: 0.0, p_clopanic: 0.0, ..g(t) };
                b.raw("flaky", 60_000, move |w, r| { let mut p = gen_prog(w, r, &o); add_lockfree(&mut p, r); p.feat.x86_hide = r.below(16) as u32; p }, |w, p, r| std_eval(w, p, r, true, true).or_else(|| dispatch_agrees(r)));
            }
        }
        "C17" => {
            for (c, k) in [("x64", 100_000), ("x64-dbg", 40_000), ("a64", 100_000), ("a64-dbg", 40_000), ("a64-lse", 50_000), ("a64-lse2", 50_000), ("a64-rcpc3", 30_000), ("a64-lse128", 30_000), ("a64-lse128n", 20_000), ("a64-lse128-dbg", 20_000), ("a64-lse-dbg", 20_000), ("rv64", 50_000), ("rv64-zacas", 10_000), ("rv32gc", 40_000), ("rv32-zacas", 10_000), ("v5te", 40_000), ("a64-android", 20_000), ("a64-freebsd", 20_000), ("a64-netbsd", 20_000), ("a64-openbsd", 20_000), ("a64-illumos", 20_000), ("a64-fuchsia", 20_000), ("a64-apple", 20_000), ("a64-windows", 20_000), ("x64-tsan", 30_000), ("x64-cx16-tsan", 10_000), ("x64-old", 20_000), ("a64be", 20_000), ("s390x", 20_000), ("ppc64", 40_000), ("ppc64le", 10_000), ("x64-windows", 20_000), ("x32", 20_000), ("ppc64-freebsd", 20_000), ("ppc64le-freebsd", 20_000), ("ppc64-openbsd", 20_000), ("a64-uclibc", 20_000)] { b.on(c, Feat::Rand).lin("seq", single(g(&[I128, U128, I64, U64, F64])), k).lin("conc", g(&[I128, U128, I128, U128, I64, U64]), k).lin("all", single(GenOpt { same_ty: false, nobj: (1, 3), ..g(&ALL_TY) }), k / 2); }
        }
        "C18" => {
            for (c, k) in [("rv32i-sc", 240_000), ("rv32i-sc-s", 80_000), ("rv32i-amo", 120_000), ("rv32i-zabha", 120_000), ("rv32-sc", 120_000), ("rv64i-sc", 160_000), ("rv64i-amo", 60_000), ("v6m-sc", 160_000), ("v4t-sc", 120_000), ("v4t-fiq", 80_000), ("msp430", 160_000), ("avr", 120_000), ("avr-xmega", 60_000)] {
                b.on(c, Feat::Full);
                irqs(&mut b, "same", GenOpt { nth: (1, 1), nop: (1, 3), p_nested: 0.1, ..g(&ALL_TY) }, 3, k);
                irqs(&mut b, "multi", GenOpt { nth: (1, 1), nop: (1, 4), nobj: (2, 3), same_ty: false, pack: true, p_nested: 0.2, ..g(&ALL_TY) }, 4, k / 2);
                irqs(&mut b, "wide", GenOpt { nth: (1, 1), nop: (1, 2), ..g(&[I64, U64, I128, U128, F64]) }, 4, k / 2);
            }
            for (c, f, m, k) in fused_cfgs() { if one_core_cfg(&get(c)) { b.on(c, f).fused(Shape::Coh, m, k * 2); } }
        }
        "C19" => {
            for (c, k) in [("rv32i-sc", 240_000), ("rv32i-sc-s", 160_000), ("rv32i-amo", 80_000), ("rv32-sc", 80_000), ("rv32-priv", 80_000), ("rv64i-sc", 120_000), ("rv64-priv-s", 80_000), ("rv64i-amo", 40_000), ("v6m-sc", 120_000), ("v4t-sc", 120_000), ("v4t-fiq", 120_000), ("v8mb-priv", 60_000), ("v7a-priv", 60_000), ("msp430", 120_000), ("msp430-cs", 30_000), ("avr", 120_000), ("avr-xmega", 60_000), ("avr-cs", 30_000)] {
                b.on(c, Feat::Full);
                let nth = if c.contains("priv") { (1, 2) } else { (1, 1) };
                irq_state(&mut b, "state", GenOpt { nth, nop: (1, 5), nobj: (1, 2), same_ty: false, p_badord: 0.2, p_nested: 0.3, p_clopanic: 0.1, ..g(&ALL_TY) }, k);
            }
        }
        "C20" => {
            for (c, k) in [("rv32i-cs", 240_000), ("rv64i-cs", 120_000), ("v6m-cs", 120_000), ("v4t-cs", 80_000), ("msp430-cs", 60_000), ("avr-cs", 60_000)] {
                b.on(c, Feat::Full);
                irqs(&mut b, "cores", GenOpt { nth: (2, 3), nop: (1, 3), p_badord: 0.05, ..g(&ALL_TY) }, 1, k);
                irqs(&mut b, "irqs", GenOpt { nth: (1, 3), nop: (1, 3), nobj: (1, 3), same_ty: false, p_nested: 0.4, ..g(&ALL_TY) }, 4, k);
                irqs(&mut b, "packed", GenOpt { nth: (2, 4), nop: (1, 3), nobj: (2, 4), same_ty: false, pack: true, ..g(&ALL_TY) }, 1, k / 2);
                b.raw("claims", k / 20, |w, r| { let mut p = gen_prog(w, r, &GenOpt { nobj: (2, 4), same_ty: false, ..g(&ALL_TY) }); add_lockfree(&mut p, r); p }, |w, p, r| std_eval(w, p, r, true, true).or_else(|| {
                    r.recs.iter().find_map(|x| match &x.out { Out::Done(q) if x.call.op == Op::LockFree && q.text.as_ref().is_some_and(|t| t[0] != 0 || t[1] != 0) => Some(Viol { kind: Kind::Other, msg: format!("Atomic<{}> claims to be lock-free although it uses the critical section", x.call.ty.name()) }), _ => None })
                }));
            }
        }
        "C23" => {
            for (c, k) in [("rv32-priv", 80_000), ("rv32-priv-s", 30_000), ("rv64-priv-s", 30_000), ("v8mb-priv", 60_000), ("v7a-priv", 40_000)] {
                b.on(c, Feat::Full);
                let tys: &[Ty] = if c.starts_with("rv64") { &[I128, U128] } else { &[I64, U64, I128, U128, F64] };
                irqs(&mut b, "one", GenOpt { nth: (1, 1), nop: (1, 3), ..g(tys) }, 4, k);
                irqs(&mut b, "cores", GenOpt { nth: (2, 3), nop: (1, 3), p_badord: 0.05, ..g(tys) }, 3, k / 2);
                irqs(&mut b, "objs", GenOpt { nth: (1, 3), nop: (1, 3), nobj: (2, 3), same_ty: false, p_nested: 0.4, ..g(tys) }, 3, k / 2);
            }
        }
        "C21" => {
            for (c, f, k) in [("x64", Feat::Rand, 60_000), ("x86", Feat::Full, 40_000), ("x64-dbg", Feat::Rand, 20_000), ("a64", Feat::Rand, 40_000), ("a64-lse2", Feat::Rand, 20_000), ("rv64", Feat::Rand, 20_000), ("rv32i-sc", Feat::Full, 10_000), ("v5te", Feat::Rand, 20_000), ("v6m-sc", Feat::Full, 10_000), ("rv32", Feat::Full, 10_000), ("v7", Feat::Full, 10_000), ("v8mb-priv", Feat::Full, 10_000), ("x64-l15", Feat::Rand, 20_000), ("x86-l15", Feat::Full, 10_000), ("a64-lse128", Feat::Rand, 10_000), ("a64-noout", Feat::Rand, 10_000), ("x64-old", Feat::Full, 10_000), ("x86-noasm", Feat::Full, 10_000), ("a64-old", Feat::Rand, 10_000), ("a64be", Feat::Rand, 10_000), ("x64-f16", Feat::Rand, 10_000), ("s390x", Feat::Rand, 10_000), ("ppc64le", Feat::Rand, 10_000), ("msp430", Feat::Full, 10_000), ("avr", Feat::Full, 10_000), ("x64-windows", Feat::Rand, 10_000), ("x32", Feat::Rand, 10_000), ("x64-windows-cx16", Feat::Rand, 10_000), ("x32-cx16", Feat::Rand, 10_000)] { b.on(c, f); neighbours(&mut b, k); }
        }
        "C22" => {
            for (c, f, k) in [("x64-serde", Feat::Rand, 40_000), ("x86-serde", Feat::Full, 20_000), ("x64-serde-dbg", Feat::Rand, 10_000), ("a64-serde", Feat::Rand, 20_000)] { b.on(c, f); formatting(&mut b, k); }
        }
        "C24" => {
            for (c, f, k) in [("x64", Feat::Rand, 60_000), ("x86", Feat::Full, 40_000), ("x64-dbg", Feat::Rand, 20_000), ("a64", Feat::Rand, 40_000), ("rv64", Feat::Rand, 20_000), ("rv32", Feat::Full, 20_000), ("v5te", Feat::Rand, 20_000), ("v7", Feat::Full, 20_000), ("rv32i-sc", Feat::Full, 10_000), ("v6m-sc", Feat::Full, 10_000), ("rv32i-cs", Feat::Full, 10_000), ("x64-old", Feat::Full, 10_000), ("x86-noasm", Feat::Full, 10_000), ("a64-old", Feat::Rand, 10_000), ("x64-f16", Feat::Rand, 10_000), ("s390x", Feat::Rand, 10_000), ("ppc64le", Feat::Rand, 10_000), ("msp430", Feat::Full, 10_000), ("avr", Feat::Full, 10_000), ("x64-windows", Feat::Rand, 10_000), ("x32", Feat::Rand, 10_000), ("v6m-cs", Feat::Full, 10_000)] { b.on(c, f); exclusive(&mut b, k); }
        }
        _ => return None,
    }
    Some(Check { id, scens: b.s, assumptions: vec![], rule: RULE })
}
/// Operation sequences on several objects whose addresses map to the same internal lock.
fn collide(b: &mut B, k: u64) {
    let mk = |nth: (usize, usize), nested: f64| {
        move |w: &mut World, r: &mut Rng| {
            let o = GenOpt { nth, nobj: (2, 4), same_ty: false, p_nested: nested, nop: (1, 4), ..GenOpt::new(if w.sem.word == 8 { &[I128, U128] } else { &[I128, U128, I128, U128, I64] }) };
            let mut p = gen_prog(w, r, &o);
            // address % 67 picks the lock (an implementation detail that only biases the search)
            let base = w.mem.lay.obj;
            let a0 = 16 * r.below(64);
            let want = (base + a0) % 67;
            let mut cand: Vec<u64> = (0..w.mem.lay.obj_len / 16 - 2).map(|i| i * 16).filter(|o| (base + o) % 67 == want).collect();
            for ob in p.objs.iter_mut() { let i = r.usize(cand.len()); ob.off = cand.swap_remove(i); }
            p
        }
    };
    b.raw("collide", k, mk((2, 4), 0.1), |w, p, r| std_eval(w, p, r, true, true));
    b.raw("nested", k / 2, mk((2, 3), 0.8), |w, p, r| std_eval(w, p, r, true, true));
    let ldst = GenOpt { nop: (2, 5), nth: (2, 4), ..only(&WIDE, &[Op::Load, Op::Store, Op::Load, Op::Swap, Op::Cas]) };
    b.lin("ldst", ldst, k);
    wrap(b, "wrap", Model::Sc, k / 2);
}
/// The lock's version counter wraps during the run, or goes round once while an operation is under way.
fn wrap(b: &mut B, name: &str, model: Model, k: u64) {
    b.raw(name, k, move |w, r| {
        let o = GenOpt { nop: (1, 4), nth: (2, 3), nobj: (1, 2), p_clopanic: 0.0, stalls: false, model, ..only(if w.sem.word == 8 { &[I128, U128] } else { &[I128, U128, I64, U64] }, &[Op::Load, Op::Store, Op::Load, Op::Swap, Op::Cas, Op::FetchAdd]) };
        let mut p = gen_prog(w, r, &o);
        let Some(l) = w.lock_word(p.objs[0].ty, p.objs[0].off) else { return p };
        let mask = mask_bits(l.size * 8) as u64;
        if r.chance(0.7) {
            let k = r.below(6);
            p.pokes.push(("@".into(), l.lo, l.size, (l.v1.wrapping_sub(l.delta.wrapping_mul(k + 1)) & mask) as u128));
            if l.hi != 0 && r.chance(0.5) { p.pokes.push(("@".into(), l.hi, l.size, (r.next() & mask) as u128)); }
        }
        // 2^64 stamps never go by, 2^32 can; a lock must not rely on fewer of its bits either
        if r.chance(0.8) {
            let len = w.run(&p, 1, None).stats.slices;
            for _ in 0..1 + r.usize(2) {
                let bits = if r.chance(0.6) { 32 } else { *r.pick(&[8, 16, 31]) };
                let n = (1 << bits) / l.delta - r.below(4);
                p.jumps.push(Jump { at: r.below(len + 1), lo: l.lo, size: l.size, rem: l.v1 % l.delta, delta: l.delta, n, hi: l.hi, hi_add: l.hi_add });
            }
        }
        p
    }, move |w, p, r| std_eval(w, p, r, model == Model::Sc, true));
}
/// Interrupts at arbitrary instructions; everything std_eval checks must still hold.
fn irqs(b: &mut B, name: &str, o: GenOpt, max: usize, k: u64) {
    b.raw(name, k, move |w, r| { let mut p = irq_prog(w, r, &o, max); p.max_slices = 20_000; p }, |w, p, r| std_eval(w, p, r, true, true));
}
/// Interrupt state is restored by every operation, including those that panic; the engine checks it.
fn irq_state(b: &mut B, name: &str, o: GenOpt, k: u64) {
    b.raw(name, k, move |w, r| { let mut p = irq_prog(w, r, &o, 2); let n = p.threads.len(); p.irq_off = r.below(1 << n) as u32; p }, |w, p, r| std_eval(w, p, r, true, true));
}
fn fence_prog(w: &mut World, r: &mut Rng) -> Prog {
    let mut p = gen_prog(w, r, &GenOpt { nop: (0, 2), p_badord: 0.3, ..g(&ALL_TY) });
    for t in p.threads.iter_mut() {
        for _ in 0..1 + r.usize(3) {
            let mut c = Call::new(Misc, *r.pick(&[Op::Fence, Op::CFence, Op::Fence, Op::Spin]), 999);
            c.o1 = r.below(5) as u8;
            let at = r.usize(t.len() + 1);
            t.insert(at, c);
        }
    }
    p
}
fn add_lockfree(p: &mut Prog, r: &mut Rng) {
    for t in p.threads.iter_mut() {
        if t.is_empty() { continue; }
        for _ in 0..1 + r.usize(2) {
            let (ty, obj) = (t[0].ty, t[0].obj);
            let at = r.usize(t.len() + 1);
            t.insert(at, Call::new(ty, Op::LockFree, obj));
        }
    }
}
/// is_lock_free answers of one type: (always, now) per type; inconsistent answers are violations.
fn dispatch_agrees(r: &Run) -> Option<Viol> {
    let mut seen: Vec<(Ty, Vec<u8>)> = vec![];
    for x in &r.recs {
        if x.call.op != Op::LockFree { continue; }
        let Out::Done(ret) = &x.out else { continue };
        let Some(t) = &ret.text else { continue };
        if t[1] == 1 && t[0] != 1 { return Some(Viol { kind: Kind::Other, msg: format!("Atomic<{}> is always lock-free but not lock-free", x.call.ty.name()) }); }
        match seen.iter().find(|s| s.0 == x.call.ty) {
            Some(s) => if s.1 != *t { return Some(Viol { kind: Kind::Other, msg: format!("is_lock_free of Atomic<{}> changed from {:?} to {:?}", x.call.ty.name(), s.1, t) }); },
            None => seen.push((x.call.ty, t.clone())),
        }
    }
    None
}
/// Threads stop forever in the middle of operations on types that report being lock-free.
fn freeze(b: &mut B, k: u64) {
    b.raw("freeze", k, |w, r| {
        let o = GenOpt { nth: (2, 4), nop: (1, 3), nobj: (1, 2), same_ty: false, stalls: false, p_clopanic: 0.05, ..g(if r.chance(0.5) { &WIDE } else { &ALL_TY }) };
        let mut p = gen_prog(w, r, &o);
        let n = p.threads.len();
        for i in 0..1 + r.usize(n - 1) { let at = 1 + r.below(14); p.freeze.push((i, at)); }
        for t in p.threads.iter_mut() { if t.is_empty() { continue; } let (a, z) = (t[0].clone(), t[t.len() - 1].clone()); t.insert(0, Call::new(a.ty, Op::LockFree, a.obj)); t.push(Call::new(z.ty, Op::LockFree, z.obj)); }
        // let the last thread know every type's answer
        let mut tys: Vec<(Ty, usize)> = vec![];
        for t in &p.threads { for c in t { if !tys.iter().any(|x| x.0 == c.ty) { tys.push((c.ty, c.obj)); } } }
        for (t, o) in tys { p.threads[n - 1].insert(0, Call::new(t, Op::LockFree, o)); }
        p.freeze.retain(|f| f.0 != n - 1);
        p.fair_after = 400;
        p.max_slices = 4_000;
        p
    }, |w, p, r| {
        if let Some(v) = dispatch_agrees(r) { return Some(v); }
        let lf = |t: Ty| r.recs.iter().any(|x| x.call.ty == t && x.call.op == Op::LockFree && matches!(&x.out, Out::Done(q) if q.text.as_ref().is_some_and(|b| b[0] == 1)));
        // only meaningful when every type involved is lock-free
        if r.recs.iter().all(|x| lf(x.call.ty)) {
            for x in &r.recs {
                if x.out == Out::Pending && !p.freeze.iter().any(|f| f.0 == x.cpu) {
                    return Some(Viol { kind: Kind::Progress, msg: format!("cpu{}: {} cannot finish because another CPU stopped forever, although the type reports itself lock-free", x.cpu, x.call.show()) });
                }
            }
        }
        if let Some(v) = panics(r) { return Some(v); }
        for (i, o) in p.objs.iter().enumerate() { if let Err(m) = crate::lin::check(&w.sem, &r.recs, i, o.init, None, true) { return Some(Viol { kind: Kind::Lin, msg: m }); } }
        None
    });
}
/// A reader (or any operation) against threads that write without ever stopping.
fn progress(b: &mut B, k: u64) {
    b.raw("stream", k, |w, r| {
        let o = GenOpt { nth: (2, 4), nop: (1, 3), nobj: (1, 2), same_ty: false, p_nested: 0.1, ..g(if r.chance(0.7) { &WIDE } else { &ALL_TY }) };
        let mut p = gen_prog(w, r, &o);
        let n = p.threads.len();
        for i in 1..n { if r.chance(0.7) { p.loops |= 1 << i; } }
        for i in 0..r.usize(3) { p.stalls.push((i % n, r.below(30), 50 + r.below(600))); }
        p.fair_after = 1_500;
        p.max_slices = 25_000;
        p
    }, |w, p, r| if p.loops == 0 { std_eval(w, p, r, true, true) } else { std_eval(w, p, r, true, false) });
    b.lin("finish", GenOpt { nth: (3, 4), nop: (2, 4), nobj: (1, 3), same_ty: false, p_clopanic: 0.2, p_badord: 0.1, ..g(&ALL_TY) }, k * 4);
}
/// Atomics with other atomics and plain bytes right next to them.
fn neighbours(b: &mut B, k: u64) {
    b.raw("packed", k, |w, r| {
        let small = [I8, U8, Bool, I16, U16];
        let o = GenOpt { nobj: (2, 4), pack: true, same_ty: false, nth: (1, 3), nop: (1, 3), p_clopanic: 0.05, ..g(if r.chance(0.6) { &small } else { &ALL_TY }) };
        let mut p = gen_prog(w, r, &o);
        // plain bytes owned by one extra thread
        let mut used: Vec<(u64, u64)> = p.objs.iter().map(|o| (o.off, o.off + w.size(o.ty) as u64)).collect();
        let mut t = vec![];
        for _ in 0..1 + r.usize(3) {
            let (a, z) = *r.pick(&used);
            let x = if r.chance(0.5) { z + r.below(2) } else if a > 0 { a - 1 } else { z };
            if used.iter().any(|u| x >= u.0 && x < u.1) { continue; }
            used.push((x, x + 1));
            let init = r.below(256) as u128;
            p.objs.push(Obj { ty: U8, off: x, init });
            let k = p.objs.len() - 1;
            for _ in 0..1 + r.usize(3) {
                let mut c = Call::new(Misc, if r.chance(0.5) { Op::NaStore8 } else { Op::NaLoad8 }, k);
                c.a = r.below(256) as u128;
                let at = r.usize(t.len() + 1);
                t.insert(at, c);
            }
        }
        if !t.is_empty() { p.threads.push(t); if let Strat::Pct { prio, .. } = &mut p.strat { prio.push(500 + r.below(2000) as u32); } }
        p
    }, |w, p, r| std_eval(w, p, r, true, true));
    b.lin("all", GenOpt { nobj: (2, 4), pack: true, same_ty: false, nth: (2, 3), ..g(&ALL_TY) }, k / 2);
    b.lin("edges", single(GenOpt { nobj: (1, 3), pack: true, same_ty: false, ..g(&ALL_TY) }), k / 2);
}
fn formatting(b: &mut B, k: u64) {
    let rd = [Op::Debug, Op::Ser, Op::Debug, Op::Ser, Op::Store, Op::Swap, Op::FetchXor, Op::Load];
    for (n, nth, nop) in [("conc", (2, 3), (1, 3)), ("seq", (1, 1), (3, 6))] {
        let o = GenOpt { nth, nop, ..only(&ALL_TY, &rd) };
        b.raw(n, k, move |w, r| {
            let mut p = gen_prog(w, r, &o);
            for t in p.threads.iter_mut() { for c in t.iter_mut() { if c.ty == Ptr && c.op == Op::Ser { c.op = Op::Debug; } } }
            if r.chance(0.3) { p.sink_fail = 1 + r.below(3) as u32; }
            p
        }, |w, p, r| std_eval(w, p, r, true, true).or_else(|| {
            // an error is reported exactly when the sink failed during the call
            for x in &r.recs {
                if let Out::Done(q) = &x.out {
                    if matches!(x.call.op, Op::Debug | Op::Ser) && !q.ok && p.sink_fail == 0 { return Some(Viol { kind: Kind::Other, msg: format!("{} reports an error although nothing failed", x.call.show()) }); }
                    if x.call.op == Op::Ser && q.ok && p.sink_fail == 1 { return Some(Viol { kind: Kind::Other, msg: format!("{} reports success although the serializer failed", x.call.show()) }); }
                    if x.call.op == Op::Debug && q.ok && p.sink_fail == 1 { return Some(Viol { kind: Kind::Other, msg: format!("{} reports success although the formatter failed", x.call.show()) }); }
                }
            }
            None
        }));
    }
    b.raw("de", k / 2, |w, r| {
        let tys: Vec<Ty> = ALL_TY.iter().copied().filter(|t| *t != Ptr).collect();
        let mut p = gen_prog(w, r, &single(g(&tys)));
        let n = 1 + r.usize(3);
        for _ in 0..n {
            let ty = p.objs[0].ty;
            let mut c = Call::new(ty, Op::De, 0);
            let pl = value_pool(ty, w.sem.bits(ty), r); c.a = *r.pick(&pl);
            let at = r.usize(p.threads[0].len() + 1);
            p.threads[0].insert(at, c);
        }
        p.sink_fail = r.chance(0.25) as u32;
        p
    }, |w, p, r| std_eval(w, p, r, true, true).or_else(|| {
        for x in &r.recs { if let (Op::De, Out::Done(q)) = (x.call.op, &x.out) { if q.ok == (p.sink_fail != 0) { return Some(Viol { kind: Kind::Other, msg: format!("{}: deserializer {} but the result is {}", x.call.show(), if p.sink_fail != 0 { "failed" } else { "succeeded" }, if q.ok { "Ok" } else { "Err" }) }); } } }
        None
    }));
}
fn exclusive(b: &mut B, k: u64) {
    let setters = [Op::New, Op::From, Op::Default, Op::GetMutWrite, Op::RawWrite];
    let getters = [Op::GetMutRead, Op::IntoInner, Op::RawRead, Op::Load, Op::AsPtr, Op::LockFree];
    let set = move |w: &World, r: &mut Rng, ty: Ty, obj: usize| { let mut c = Call::new(ty, *r.pick(&setters), obj); let pl = value_pool(ty, w.sem.bits(ty), r); c.a = *r.pick(&pl); c };
    b.raw("phases", k, move |w, r| {
        let o = GenOpt { nobj: (1, 2), same_ty: false, nth: (1, 3), nop: (0, 2), ..g(&ALL_TY) };
        let mut p = gen_prog(w, r, &o);
        for (i, ob) in p.objs.iter().enumerate() {
            for _ in 0..1 + r.usize(2) { p.pre.push(set(w, r, ob.ty, i)); }
            if r.chance(0.5) { p.pre.push(Call::new(ob.ty, *r.pick(&getters), i)); }
            for _ in 0..1 + r.usize(2) { p.post.push(Call::new(ob.ty, *r.pick(&getters), i)); }
        }
        p
    }, |w, p, r| std_eval(w, p, r, true, true));
    b.raw("seq", k, move |w, r| {
        let o = GenOpt { nobj: (1, 3), same_ty: false, ..single(g(&ALL_TY)) };
        let mut p = gen_prog(w, r, &o);
        for _ in 0..2 + r.usize(4) {
            let i = r.usize(p.objs.len());
            let ty = p.objs[i].ty;
            let c = if r.chance(0.5) { set(w, r, ty, i) } else { Call::new(ty, *r.pick(&getters), i) };
            let at = r.usize(p.threads[0].len() + 1);
            p.threads[0].insert(at, c);
        }
        p
    }, |w, p, r| std_eval(w, p, r, true, true));
}
