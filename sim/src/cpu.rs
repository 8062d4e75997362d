//! Uniform interface over the instruction emulators.
use crate::a64::{A64Feat, A64};
use crate::arm::{ArmCpu, ArmFeat};
use crate::guest::{Arch, Image};
use crate::mem::{Mem, Trap};
use crate::avr::{Avr, AvrFeat};
use crate::msp430::{Msp, MspFeat};
use crate::ppc::{Ppc, PpcFeat};
use crate::rv::{Rv, RvFeat};
use crate::s390::{S390Feat, S390};
use crate::x86::{X86Feat, X86};

/// The simulated processor's properties (chosen per run).
#[derive(Clone, Debug, PartialEq)]
pub struct CpuFeat {
    pub x86: X86Feat,
    /// CPUs (bit mask) whose CPUID does not report cmpxchg16b although the instruction works.
    pub x86_hide: u32,
    pub a64: A64Feat,
    pub rv: RvFeat,
    pub arm: ArmFeat,
    pub s390: S390Feat,
    pub ppc: PpcFeat,
    pub msp: MspFeat,
    pub avr: AvrFeat,
}
impl Default for CpuFeat { fn default() -> Self { CpuFeat { x86: X86Feat::full(), x86_hide: 0, a64: A64Feat::full(), rv: RvFeat::full(), arm: ArmFeat::full(), s390: S390Feat::full(), ppc: PpcFeat::full(), msp: MspFeat::full(), avr: AvrFeat::full() } } }

#[derive(Clone)]
pub enum AnyCpu { X86(Box<X86>), A64(Box<A64>), Rv(Box<Rv>), Arm(Box<ArmCpu>), S390(Box<S390>), Ppc(Box<Ppc>), Msp(Box<Msp>), Avr(Box<Avr>) }
macro_rules! each { ($s:expr, $c:ident => $e:expr) => { match $s { AnyCpu::X86($c) => $e, AnyCpu::A64($c) => $e, AnyCpu::Rv($c) => $e, AnyCpu::Arm($c) => $e, AnyCpu::S390($c) => $e, AnyCpu::Ppc($c) => $e, AnyCpu::Msp($c) => $e, AnyCpu::Avr($c) => $e } }; }
impl AnyCpu {
    pub fn new(img: &Image, f: &CpuFeat, cpu: usize) -> AnyCpu {
        match img.cfg.arch {
            Arch::X64 | Arch::X32 | Arch::X86 => { let mut c = X86::new(img.cfg.arch != Arch::X86, f.x86); c.hide_cx16 = f.x86_hide >> cpu & 1 != 0; c.win = img.cfg.triple.contains("windows"); AnyCpu::X86(Box::new(c)) },
            Arch::A64 => AnyCpu::A64(Box::new(A64::new(f.a64))),
            Arch::Rv64 | Arch::Rv32 => AnyCpu::Rv(Box::new(Rv::new(img.cfg.arch == Arch::Rv64, f.rv))),
            Arch::Arm | Arch::Thumb => AnyCpu::Arm(Box::new(ArmCpu::new(f.arm))),
            Arch::S390x => AnyCpu::S390(Box::new(S390::new(f.s390))),
            Arch::Ppc64 => AnyCpu::Ppc(Box::new(Ppc::new(f.ppc))),
            Arch::Msp430 => AnyCpu::Msp(Box::new(Msp::new(f.msp))),
            Arch::Avr => AnyCpu::Avr(Box::new(Avr::new(f.avr))),
        }
    }
    #[inline]
    pub fn step(&mut self, m: &mut Mem) -> Result<(), Trap> { each!(self, c => c.step(m)) }
    #[inline]
    pub fn pc(&self) -> u64 { each!(self, c => c.pc) }
    pub fn sp(&self) -> u64 { each!(self, c => c.sp()) }
    pub fn start_call(&mut self, m: &mut Mem, f: u64, args: &[u64], sp: u64, ret: u64) { each!(self, c => c.start_call(m, f, args, sp, ret)) }
    pub fn check_saved(&self, sp: u64, nargs: usize) -> Option<String> { each!(self, c => c.check_saved(sp, nargs)) }
    pub fn arg(&self, m: &Mem, i: usize) -> u64 { each!(self, c => c.arg(m, i)) }
    /// A 32-bit first argument (a register pair on 16-bit processors).
    pub fn arg_u32(&self, m: &Mem, i: usize) -> u32 { match self { AnyCpu::Msp(c) => c.arg(m, i) as u32 | (c.arg(m, i + 1) as u32) << 16, AnyCpu::Avr(c) => c.arg_u32(), _ => self.arg(m, i) as u32 } }
    pub fn do_return(&mut self, m: &Mem, v: u64) { each!(self, c => c.do_return(m, v)) }
    /// Interrupts enabled?
    pub fn irq_on(&self) -> bool { match self { AnyCpu::Rv(c) => c.irq_on(), AnyCpu::Arm(c) => c.irq_on(), AnyCpu::Msp(c) => c.irq_on(), AnyCpu::Avr(c) => c.irq_on(), _ => true } }
    pub fn set_irq(&mut self, on: bool) { match self { AnyCpu::Rv(c) => c.set_irq(on), AnyCpu::Arm(c) => c.set_irq(on), AnyCpu::Msp(c) => c.set_irq(on), AnyCpu::Avr(c) => c.set_irq(on), _ => {} } }
    /// Status register bits that every operation must restore.
    pub fn status(&self) -> u64 { match self { AnyCpu::Rv(c) => c.status, AnyCpu::Arm(c) => c.status(), AnyCpu::Msp(c) => c.status(), _ => 0 } }
}
