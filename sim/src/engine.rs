//! One deterministic run: CPUs, operations, interrupts, critical sections, faults, history.
use crate::cpu::{AnyCpu, CpuFeat};
use crate::guest::{Image, STUBS, STUB_STEP};
use crate::mem::{FaultP, MStats, Mem, Model, Trap};
use crate::ops::*;
use crate::util::{hash64, Rng, J};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub struct Obj { pub ty: Ty, pub off: u64, pub init: u128 }
#[derive(Clone, Debug, PartialEq)]
pub struct Irq { pub cpu: usize, pub at: u64, pub calls: Vec<Call>, /* handler runs with interrupts enabled */ pub nest: bool }
#[derive(Clone, Debug, PartialEq)]
pub enum Strat {
    Rand(u32),
    Pct { prio: Vec<u32>, change: Vec<u64> },
    /// Between any two shared accesses of the victim another CPU completes an operation (or makes
    /// `patience` accesses in vain), `rounds` times over; `slack`: permille of rounds left out.
    Starve { victim: usize, rounds: u32, patience: u32, slack: u32 },
}
#[derive(Clone, Debug)]
pub struct Prog {
    pub objs: Vec<Obj>,
    pub threads: Vec<Vec<Call>>,
    /// Calls CPU 0 makes before any other thread starts / after all others are done.
    pub pre: Vec<Call>,
    pub post: Vec<Call>,
    /// Threads that repeat their calls until every other thread is done.
    pub loops: u32,
    pub freeze: Vec<(usize, u64)>,
    pub stalls: Vec<(usize, u64, u64)>,
    pub irqs: Vec<Irq>,
    pub model: Model,
    pub fp: FaultP,
    pub strat: Strat,
    pub feat: CpuFeat,
    /// Interrupts initially disabled on these CPUs (bit mask).
    pub irq_off: u32,
    /// The formatter/serializer fails at its n-th call (0: never).
    pub sink_fail: u32,
    /// Host-side initial values of private statics (symbol, offset, size, value).
    pub pokes: Vec<(String, u64, u32, u128)>,
    /// Time jumps over many completed lock-protected writes to other objects that share a lock.
    pub jumps: Vec<Jump>,
    pub max_slices: u64,
    /// No more faults and fair scheduling after this many slices.
    pub fair_after: u64,
    pub tag: String,
}
impl Prog {
    pub fn new() -> Prog {
        Prog { objs: vec![], threads: vec![], pre: vec![], post: vec![], loops: 0, freeze: vec![], stalls: vec![], irqs: vec![], model: Model::Sc, fp: FaultP::default(), strat: Strat::Rand(300), feat: CpuFeat::default(), irq_off: 0, sink_fail: 0, pokes: vec![], jumps: vec![], max_slices: 40_000, fair_after: 3_000, tag: String::new() }
    }
    pub fn nops(&self) -> usize { self.threads.iter().map(|t| t.len()).sum::<usize>() + self.irqs.iter().map(|i| i.calls.len()).sum::<usize>() }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Out { Pending, Done(Ret), Panicked, CloPanicked }
#[derive(Clone, Debug)]
pub struct Rec {
    pub cpu: usize,
    pub call: Call,
    pub inv: u64,
    pub res: u64,
    pub out: Out,
    pub clo: Vec<(u128, Option<u128>)>,
    pub clo_at: Vec<u64>,
    pub text: Vec<u8>,
    pub irq: bool,
    pub po: u32,
    /// the CPU, or the interrupt handler's number (from 100)
    pub tid: usize,
    /// results of a fused call: the two bytes read and the second operation's result
    pub sub: Option<(u8, u8, Ret)>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind { Lin, Final, Isolation, Bool, Saved, IrqState, Cs, Illegal, Fault, Panic, Progress, Order, Other }
#[derive(Clone, Debug)]
pub struct Viol { pub kind: Kind, pub msg: String }
#[derive(Default, Clone, Debug)]
pub struct RunStats { pub insns: u64, pub slices: u64, pub switches: u64, pub irqs: u64, pub nested: u64, pub stalls: u64, pub frozen: u64, pub sinkfail: u64, pub clopanics: u64, pub cs: u64, pub cpuids: u64, pub jumps: u64, pub mem: MStats }
pub struct Run {
    pub recs: Vec<Rec>,
    pub viol: Option<Viol>,
    pub inconclusive: Option<String>,
    pub finished: bool,
    pub finals: Vec<u128>,
    pub stats: RunStats,
    pub hash: u64,
    /// instructions / slices executed per CPU (for placing faults)
    pub per_cpu: Vec<(u64, u64)>,
}
#[derive(PartialEq, Clone, Copy, Debug)]
enum FK { Top, Nested, Irq }
struct Frame { rec: usize, kind: FK, sp0: u64, out: u64, saved: Option<Box<AnyCpu>>, status: u64, nclo: u32, nsink: u32, queue: Vec<Call>, pend: Option<(u64, u64, u32, u128)>, allow: (u64, u64), also: [u64; 2], irq_on: bool }
struct C { cpu: AnyCpu, frames: Vec<Frame>, next: usize, done: bool, insns: u64, slices: u64, stall_until: u64, po: u32, cs: Vec<u32>, cs_irq: Vec<bool>, blocked: bool, irqs_left: Vec<usize> }

/// At `at`, if the lock is free, `n` write sections (each adding `delta` to its stamp) have gone by.
#[derive(Clone, Debug)]
pub struct Jump { pub at: u64, pub lo: u64, pub size: u32, pub rem: u64, pub delta: u64, pub n: u64, pub hi: u64, pub hi_add: u64 }
/// The lock word of an object, found by watching which private memory writes to the object change.
#[derive(Clone, Debug)]
pub struct LockWord { pub lo: u64, pub size: u32, pub v1: u64, pub delta: u64, pub hi: u64, pub hi_add: u64 }
pub struct World { locks: std::collections::HashMap<(Ty, u64, u64), Option<LockWord>>,
    /// CPU capabilities for the program being generated.
    pub feat: CpuFeat, pub img: Arc<Image>, pub mem: Mem, pub sem: Sem, syms: std::collections::HashMap<String, u64> }

impl World {
    pub fn new(img: Arc<Image>) -> World {
        let mem = img.mem();
        let sem = Sem { word: img.cfg.arch.word(), be: img.be };
        World { locks: Default::default(), feat: CpuFeat::default(), mem, sem, syms: img.syms.clone(), img }
    }
    /// Whether the guest offers the operation. 8- and 16-bit RMWs on pre-v6 Linux Arm are left out: the
    /// compiler passes sign-extended arguments to `__sync_*_1/2`, which compiler-builtins takes as
    /// zero-extended, and neighbouring bytes get overwritten; portable-atomic has no part in that.
    pub fn has(&self, c: &Call) -> bool {
        if self.img.cfg.triple.starts_with("armv5te") && c.ty != Ty::Bool && c.ty != Ty::Misc && self.size(c.ty) < 4 && c.op.is_rmw() { return false; }
        self.syms.contains_key(&c.sym())
    }
    pub fn has_ty(&self, t: Ty) -> bool { self.syms.contains_key(&Call::new(t, Op::Load, 0).sym()) }
    pub fn size(&self, t: Ty) -> u32 { t.size(self.sem.word) }
    /// Which lock word a store to this object moves, and by how much (None: not found).
    pub fn lock_word(&mut self, ty: Ty, off: u64) -> Option<LockWord> {
        let key = (ty, off, self.feat.x86.cx16 as u64 | (self.feat.rv.bits() << 1) ^ self.feat.arm.bits() << 20);
        if let Some(x) = self.locks.get(&key) { return x.clone(); }
        let feat = self.feat.clone();
        let s = self_word(&self.img.cfg);
        let mut go = |n: usize, poke: Option<(u64, u32, u128)>| {
            let mut p = Prog::new();
            p.feat = feat.clone();
            p.objs.push(Obj { ty, off, init: 0 });
            p.threads.push((0..n).map(|_| { let mut c = Call::new(ty, Op::Store, 0); c.o1 = 0; c.a = 1; c }).collect());
            if let Some((a, s, v)) = poke { p.pokes.push(("@".into(), a, s, v)); }
            let r = self.run(&p, 1, None);
            if !r.finished { return vec![]; }
            self.mem.touched()
        };
        let find = |a: &[(u64, [u8; 8])], b: &[(u64, [u8; 8])], s: u32| {
            let at = |v: &[(u64, [u8; 8])], x: u64| v.iter().find(|q| q.0 == x & !7).map(|q| { let o = (x & 7) as usize; let mut t = [0u8; 8]; t[..s as usize].copy_from_slice(&q.1[o..o + s as usize]); u64::from_le_bytes(t) });
            let mut d = vec![];
            for q in a.iter().chain(b) { for k in (0..8).step_by(s as usize) { let x = q.0 + k; if at(a, x).unwrap_or(0) != at(b, x).unwrap_or(0) && !d.iter().any(|y: &(u64, u64, u64)| y.0 == x) { d.push((x, at(a, x).unwrap_or(0), at(b, x).unwrap_or(0))); } } }
            d
        };
        let res = (|| {
            let (a, b) = (go(1, None), go(2, None));
            let d = find(&a, &b, s);
            if d.len() != 1 { return None; }
            let (lo, v1, v2) = d[0];
            let mask = if s == 8 { u64::MAX } else { (1 << (s * 8)) - 1 };
            let delta = v2.wrapping_sub(v1) & mask;
            if delta == 0 || !delta.is_power_of_two() { return None; }
            let mut w = LockWord { lo, size: s, v1, delta, hi: 0, hi_add: 0 };
            let c = go(1, Some((lo, s, (v1.wrapping_sub(delta).wrapping_sub(delta) & mask) as u128)));
            let d: Vec<_> = find(&a, &c, s).into_iter().filter(|x| x.0 != lo).collect();
            if d.len() > 1 { return None; }
            if let Some(h) = d.first() { w.hi = h.0; w.hi_add = h.2.wrapping_sub(h.1) & mask; }
            Some(w)
        })();
        self.locks.insert(key, res.clone());
        res
    }
    pub fn run(&mut self, p: &Prog, seed: u64, forced: Option<Vec<u16>>) -> Run {
        let n = p.threads.len();
        let m = &mut self.mem;
        m.ch.reset(seed, forced);
        m.reset(n);
        m.model = p.model;
        m.fp = p.fp;
        m.amo_single = matches!(self.img.cfg.arch, crate::guest::Arch::Rv64 | crate::guest::Arch::Rv32);
        m.stats = MStats::default();
        let cs_guest = self.img.cfg.feats.contains(&"cs");
        m.obj_access_guard = if cs_guest { Some(|m, _| m.cs_holder == Some(m.cur) || m.cpus[m.cur].plain) } else { None };
        let track_irq = matches!(self.img.cfg.arch, crate::guest::Arch::Rv64 | crate::guest::Arch::Rv32 | crate::guest::Arch::Arm | crate::guest::Arch::Thumb | crate::guest::Arch::Msp430 | crate::guest::Arch::Avr);
        for o in &p.objs {
            let s = o.ty.size(self.sem.word);
            m.poke(m.lay.obj + o.off, s, o.init);
            if o.ty == Ty::Bool { m.bools.push(m.lay.obj + o.off); }
        }
        for (s, off, sz, v) in &p.pokes { if s == "@" { m.poke(*off, *sz, *v); } else if let Some(a) = self.syms.get(s) { m.poke(a + off, *sz, *v); } }
        let mut cs: Vec<C> = (0..n).map(|i| {
            let mut cpu = AnyCpu::new(&self.img, &p.feat, i);
            cpu.set_irq(p.irq_off >> i & 1 == 0);
            C { cpu, frames: vec![], next: 0, done: p.threads[i].is_empty() && !(i == 0 && p.pre.len() + p.post.len() > 0), insns: 0, slices: 0, stall_until: 0, po: 0, cs: vec![], cs_irq: vec![], blocked: false, irqs_left: (0..p.irqs.len()).filter(|k| p.irqs[*k].cpu == i).collect() }
        }).collect();
        let mut e = Eng { w: self, p, cs: &mut cs, recs: vec![], clock: 1, viol: None, inc: None, st: RunStats::default(), cs_owner: None, cs_depth: 0, hash: 0, phase: if p.pre.is_empty() { 1 } else { 0 }, fair_rng: Rng::new(77), irqs: track_irq, others_done: 0, starved: 0, handlers: 100 };
        let finished = e.go();
        let Eng { recs, viol, inc, mut st, hash, .. } = e;
        self.mem.settle();
        let finals = p.objs.iter().map(|o| self.mem.peek(self.mem.lay.obj + o.off, o.ty.size(self.sem.word))).collect();
        st.mem = self.mem.stats;
        Run { recs, viol, inconclusive: inc, finished, finals, stats: st, hash, per_cpu: cs.iter().map(|c| (c.insns, c.slices)).collect() }
    }
}
fn self_word(c: &crate::guest::Cfg) -> u32 { c.arch.word() }
struct Eng<'a> { w: &'a mut World, p: &'a Prog, cs: &'a mut Vec<C>, recs: Vec<Rec>, clock: u64, viol: Option<Viol>, inc: Option<String>, st: RunStats, cs_owner: Option<usize>, cs_depth: usize, hash: u64, phase: u8, fair_rng: Rng, irqs: bool, others_done: u64, starved: u32, handlers: usize }

impl Eng<'_> {
    fn fail(&mut self, kind: Kind, msg: String) { if self.viol.is_none() { self.viol = Some(Viol { kind, msg }); } }
    fn go(&mut self) -> bool {
        let n = self.cs.len();
        let mut cur = 0usize;
        let mut opts: Vec<(usize, usize)> = vec![];
        let mut dr = vec![];
        let mut prio: Vec<u32> = match &self.p.strat { Strat::Pct { prio, .. } => prio.clone(), _ => vec![0; n] };
        let mut change: Vec<u64> = match &self.p.strat { Strat::Pct { change, .. } => change.clone(), _ => vec![] };
        let mut low = 0u32;
        let mut streak = 0;
        // completed operations of other CPUs and slices at the victim's last turn
        let (mut mark, mut mark_t) = (0u64, 0u64);
        loop {
            let t = self.st.slices;
            if self.viol.is_some() || self.inc.is_some() { return false; }
            if let Some(v) = self.w.mem.viol.take() {
                let k = if v.starts_with("bool") { Kind::Bool } else if v.starts_with("critical") { Kind::Cs } else { Kind::Isolation };
                self.fail(k, v);
                return false;
            }
            if t == self.p.fair_after {
                self.w.mem.fair = true;
                self.w.mem.settle();
            }
            let fair = t >= self.p.fair_after;
            if t >= self.p.max_slices { return false; }
            for j in &self.p.jumps {
                if j.at != t { continue; }
                let m = &mut self.w.mem;
                let v = m.peek(j.lo, j.size) as u64;
                if v % j.delta != j.rem { continue; } // a writer holds the lock
                let mask = mask_bits(j.size * 8);
                let nv = v as u128 + j.delta as u128 * j.n as u128;
                if nv > mask && j.hi != 0 { let h = m.peek(j.hi, j.size); m.host_write(j.hi, j.size, h.wrapping_add(j.hi_add as u128) & mask); }
                m.host_write(j.lo, j.size, nv & mask);
                self.st.jumps += 1;
            }
            // loop threads stop when all others are done
            if self.p.loops != 0 && (0..n).all(|i| self.p.loops >> i & 1 != 0 || self.cs[i].done || self.frozen(i)) {
                for i in 0..n { if self.p.loops >> i & 1 != 0 && self.cs[i].frames.is_empty() { self.cs[i].done = true; } }
            }
            for &(c, at, len) in &self.p.stalls { if self.cs[c].slices == at && self.cs[c].stall_until == 0 { self.cs[c].stall_until = t + len; self.st.stalls += 1; } }
            opts.clear();
            let ok = |s: &Self, i: usize| !s.cs[i].done && !s.frozen(i) && (i == 0 || s.phase == 1) && !(i == 0 && s.phase == 1 && s.waiting_post()) && (fair || s.cs[i].stall_until <= t) && !(s.cs[i].blocked && s.cs_owner.is_some_and(|o| o != i));
            if ok(self, cur) { opts.push((cur, usize::MAX)); }
            for i in 0..n { if i != cur && ok(self, i) { opts.push((i, usize::MAX)); } }
            let ncpu = opts.len();
            if self.p.model != Model::Sc && !fair {
                for i in 0..n {
                    if self.w.mem.pending(i) > 0 {
                        self.w.mem.drainable(i, &mut dr);
                        for &k in &dr { opts.push((i, k)); }
                    }
                }
            }
            if ncpu == 0 {
                let alldone = (0..n).all(|i| self.cs[i].done || self.frozen(i));
                if alldone {
                    return (0..n).all(|i| self.cs[i].done);
                }
                if (0..n).any(|i| !self.cs[i].done && !self.frozen(i) && self.cs[i].stall_until > t) { self.st.slices += 1; continue; }
                return false; // everyone blocked: deadlock
            }
            let curok = opts[0].0 == cur;
            let len = opts.len();
            let pick;
            if fair {
                pick = self.fair_rng.usize(ncpu);
            } else {
                if change.first().is_some_and(|c| *c <= t) { change.remove(0); prio[cur] = low; low = low.wrapping_sub(1).min(0); streak = 0; }
                let spun = std::mem::replace(&mut self.w.mem.cpus[cur].paused, false);
                if spun || streak > 60 { streak = 0; if let Strat::Pct { .. } = self.p.strat { prio[cur] = prio.iter().min().unwrap().saturating_sub(1); } }
                let pd = self.p.fp.p_drain;
                let strat = &self.p.strat;
                let (prio, o) = (&prio, &opts);
                let quench = match strat { Strat::Starve { victim, rounds, patience, .. } if self.starved < *rounds => Some((*victim, self.others_done > mark || t >= mark_t + *patience as u64)), _ => None };
                pick = self.w.mem.ch.with(len, |r| {
                    if len > ncpu && r.chance(pd) { return ncpu + r.usize(len - ncpu); }
                    match strat {
                        Strat::Rand(p) => if ncpu > 1 && (!curok || r.below(1000) < if spun { 700.max(*p) } else { *p } as u64) { if curok { 1 + r.usize(ncpu - 1) } else { r.usize(ncpu) } } else { 0 },
                        Strat::Starve { slack, .. } => match quench {
                            Some((v, turn)) => match (0..ncpu).find(|&i| o[i].0 == v) {
                                Some(i) if turn || ncpu == 1 || r.below(1000) < *slack as u64 => i,
                                Some(i) => { let k = r.usize(ncpu - 1); if k >= i { k + 1 } else { k } }
                                None => r.usize(ncpu),
                            },
                            None => r.usize(ncpu),
                        },
                        Strat::Pct { .. } => { let mut b = 0; for i in 1..ncpu { if prio[o[i].0] > prio[o[b].0] { b = i; } } b }
                    }
                });
            }
            let (c, d) = opts[pick];
            self.st.slices += 1;
            self.clock += 1;
            if d != usize::MAX {
                self.w.mem.drain_one(c, d);
                self.hash = hash64(&[self.hash, 0x100 + c as u64, d as u64]);
                continue;
            }
            if c != cur { self.st.switches += 1; streak = 0; } else { streak += 1; }
            cur = c;
            if let Strat::Starve { victim, .. } = self.p.strat { if c == victim { self.starved += 1; mark = self.others_done; mark_t = t; } }
            self.slice(c);
            self.hash = hash64(&[self.hash, c as u64, self.w.mem.state_hash]);
        }
    }
    /// CPU 0 is done with its own calls but others are still running (the final phase waits).
    fn waiting_post(&self) -> bool {
        !self.p.post.is_empty() && self.cs[0].frames.is_empty() && self.cs[0].next >= self.p.threads[0].len() && (1..self.cs.len()).any(|i| !self.cs[i].done)
    }
    fn frozen(&self, i: usize) -> bool { self.p.freeze.iter().any(|f| f.0 == i && self.cs[i].slices >= f.1) }

    fn slice(&mut self, c: usize) {
        self.w.mem.cur = c;
        self.w.mem.cpus[c].budget = 1;
        self.cs[c].slices += 1;
        self.cs[c].blocked = false;
        let stub = self.w.img.lay.stub;
        let mut private = 0u32;
        loop {
            if self.viol.is_some() { return; }
            // interrupts
            if !self.cs[c].irqs_left.is_empty() && !self.w.mem.in_insn(c) && self.try_irq(c) { continue; }
            if self.cs[c].frames.is_empty() {
                if !self.start_next(c) { return; }
                continue;
            }
            let pc = self.cs[c].cpu.pc();
            if pc >= stub && pc < stub + 0x100 {
                if self.stub(c, pc) { return; }
                continue;
            }
            self.w.mem.begin_insn();
            self.w.mem.ifetch = pc;
            if let Some(t) = &mut self.w.mem.trace { if t.capacity() > 100_000 { t.push(format!("      cpu{c} {}", self.w.img.whereis(pc))); } }
            match self.cs[c].cpu.step(&mut self.w.mem) {
                Ok(()) => {
                    self.w.mem.end_insn();
                    if self.irqs && !self.cs[c].frames.last().is_none_or(|f| f.irq_on) && self.cs[c].cpu.irq_on() {
                        let s = self.w.img.whereis(pc);
                        self.fail(Kind::IrqState, format!("cpu{c} at {s}: interrupts enabled inside an operation that was called with interrupts disabled"));
                        return;
                    }
                    self.cs[c].insns += 1;
                    self.st.insns += 1;
                    private += 1;
                    if private > 3_000_000 { self.fail(Kind::Progress, format!("cpu{c} executed {private} instructions without a shared access at {}", self.w.img.whereis(pc))); return; }
                }
                Err(Trap::Yield) => return,
                Err(Trap::Fault(a, w)) => { let s = self.w.img.whereis(pc); self.fail(Kind::Fault, format!("cpu{c} at {s}: {w} (address {a:#x})")); return; }
                Err(Trap::Illegal(_, w)) => { let s = self.w.img.whereis(pc); self.fail(Kind::Illegal, format!("cpu{c} at {s}: {w}")); return; }
                Err(Trap::Abort(_, w)) => { let s = self.w.img.whereis(pc); self.fail(Kind::Panic, format!("cpu{c} at {s}: trap instruction {w}")); return; }
                Err(Trap::Unknown(_, w)) => { self.inc = Some(format!("{}: unknown instruction {w}", self.w.img.whereis(pc))); return; }
            }
        }
    }
    fn start_next(&mut self, c: usize) -> bool {
        if c == 0 && self.phase == 0 {
            if self.cs[0].next < self.p.pre.len() {
                let call = self.p.pre[self.cs[0].next].clone();
                self.cs[0].next += 1;
                let sp = self.w.mem.cpus[c].stack.1 - 0x40;
                self.begin(c, call, FK::Top, sp, None, vec![]);
                return true;
            }
            self.phase = 1;
            self.cs[0].next = 0;
            self.w.mem.settle();
            return false;
        }
        let th = if self.phase == 2 { &self.p.post } else { &self.p.threads[c] };
        if self.cs[c].next >= th.len() && c == 0 && self.phase == 1 && !self.p.post.is_empty() {
            if self.waiting_post() { return false; }
            self.phase = 2;
            self.cs[0].next = 0;
            self.w.mem.settle();
            self.w.mem.cur = 0;
            return false;
        }
        if self.cs[c].next >= th.len() {
            if self.phase == 1 && self.p.loops >> c & 1 != 0 && !th.is_empty() && self.recs.len() < 20_000 && !matches!(self.p.strat, Strat::Starve { rounds, .. } if self.starved >= rounds) {
                self.cs[c].next = 0;
            } else {
                self.cs[c].done = self.cs[c].irqs_left.is_empty() || true;
                return false;
            }
        }
        let call = th[self.cs[c].next].clone();
        self.cs[c].next += 1;
        let sp = self.w.mem.cpus[c].stack.1 - 0x40;
        self.begin(c, call, FK::Top, sp, None, vec![]);
        true
    }
    fn begin(&mut self, c: usize, call: Call, kind: FK, sp: u64, saved: Option<Box<AnyCpu>>, queue: Vec<Call>) {
        let w = &mut *self.w;
        let Some(&f) = w.syms.get(&call.sym()) else { self.inc = Some(format!("guest has no {}", call.sym())); return; };
        let depth = self.cs[c].frames.len() as u64;
        let args = w.mem.cpus[c].stack.0 + depth * 0x80;
        let out = args + 0x40;
        let size = call.ty.size(w.sem.word);
        w.mem.poke_private(args, 1, call.o1 as u128);
        w.mem.poke_private(args + 1, 1, call.o2 as u128);
        w.mem.poke_private(args + 2, 1, call.fmt as u128);
        let asz = match call.op { _ if call.op.bit_op() => 4, Op::NaStore8 => 1, Op::NaStore32 => 4, _ => size };
        let am = if call.op.bit_op() { !0 } else { mask_bits(size * 8) };
        w.mem.poke_private(args + 16, asz, call.a & am);
        w.mem.poke_private(args + 32, size, call.b & am);
        w.mem.poke_private(out, 16, 0xEEEE_EEEE_EEEE_EEEE_EEEE_EEEE_EEEE_EEEE);
        w.mem.poke_private(out + 16, 4, 0xEEEE_EEEE);
        let mut also = [0; 2];
        if let Some(f) = call.fuse {
            let at = |k: usize| w.mem.lay.obj + self.p.objs.get(k).map_or(0, |o| o.off);
            also = [at(f.w), at(f.r)];
            w.mem.poke_private(args + 8, w.sem.word, also[0] as u128);
            w.mem.poke_private(args + 48, w.sem.word, also[1] as u128);
            w.mem.poke_private(args + 56, 1, f.v1 as u128);
            w.mem.poke_private(args + 57, 1, f.v2 as u128);
            w.mem.poke_private(out + 32, 16, 0xEEEE_EEEE_EEEE_EEEE_EEEE_EEEE_EEEE_EEEE);
            w.mem.poke_private(out + 48, 4, 0xEEEE_EEEE);
        }
        w.mem.cpus[c].also = also;
        let (addr, allow) = match self.p.objs.get(call.obj) {
            Some(o) => { let a = w.mem.lay.obj + o.off; (a, (a, a + o.ty.size(w.sem.word) as u64)) }
            None => (w.mem.lay.obj, (0, 0)),
        };
        let allow = match call.op { Op::NaStore8 | Op::NaLoad8 => (allow.0, allow.0 + 1), Op::NaLoad32 | Op::NaStore32 => (allow.0, allow.0 + 4), _ => allow };
        if call.op == Op::AsPtr || call.op == Op::LockFree { w.mem.cpus[c].allow = (0, 0); } else { w.mem.cpus[c].allow = allow; }
        w.mem.cpus[c].plain = call.local || call.op.exclusive();
        let img = w.img.clone();
        let (irq_on, pre) = (self.cs[c].cpu.irq_on(), self.cs[c].cpu.status());
        let cpu = &mut self.cs[c].cpu;
        cpu.start_call(&mut w.mem, f, &[addr, args, out], sp, img.ret_magic());
        self.clock += 1;
        if let Some(t) = &mut w.mem.trace { t.push(format!("[{}] cpu{c} begins {}{}", self.clock, call.show(), match kind { FK::Irq => " (interrupt handler)", FK::Nested => " (inside the closure)", _ => "" })); }
        let po = self.cs[c].po;
        self.cs[c].po += 1;
        self.recs.push(Rec { cpu: c, call, inv: self.clock, res: u64::MAX, out: Out::Pending, clo: vec![], clo_at: vec![], text: vec![], irq: kind == FK::Irq, po, tid: c, sub: None });
        let rec = self.recs.len() - 1;
        self.cs[c].frames.push(Frame { rec, kind, sp0: sp, out, saved, status: pre, nclo: 0, nsink: 0, queue, pend: None, allow, also, irq_on });
    }
    fn try_irq(&mut self, c: usize) -> bool {
        let n = self.cs[c].insns;
        let Some(k) = self.cs[c].irqs_left.iter().position(|q| self.p.irqs[*q].at <= n) else { return false };
        if !self.cs[c].cpu.irq_on() || self.cs[c].done { return false; }
        if self.cs[c].frames.iter().filter(|f| f.kind == FK::Irq).count() >= 3 { return false; }
        let q = self.cs[c].irqs_left.remove(k);
        let (calls, nest) = (self.p.irqs[q].calls.clone(), self.p.irqs[q].nest);
        if calls.is_empty() { return true; }
        self.st.irqs += 1;
        let saved = Box::new(self.cs[c].cpu.clone());
        let sp = if self.cs[c].frames.is_empty() { self.w.mem.cpus[c].stack.1 - 0x40 } else { (self.cs[c].cpu.sp() - 0x100) & !15 };
        if let Some(t) = &mut self.w.mem.trace { t.push(format!("  !! interrupt on cpu{c} at {}", self.w.img.whereis(saved.pc()))); }
        self.w.mem.clear_resv();
        self.cs[c].cpu.set_irq(nest);
        let mut it = calls.into_iter();
        let first = it.next().unwrap();
        self.begin(c, first, FK::Irq, sp, Some(saved), it.collect());
        if let Some(x) = self.recs.last_mut() { x.tid = self.handlers; }
        self.handlers += 1;
        true
    }
    fn result(&mut self, fr: &Frame) -> Ret { self.result_at(fr, fr.out) }
    fn result_at(&mut self, fr: &Frame, out: u64) -> Ret {
        let r = &self.recs[fr.rec];
        let w = &self.w;
        let size = r.call.ty.size(w.sem.word);
        let size = match r.call.op { Op::NaLoad8 => 1, Op::NaLoad32 => 4, Op::AsPtr => w.sem.word, _ => size };
        match r.call.op.shape() {
            Shape::Unit => Ret { val: 0, ok: true, text: None },
            Shape::Val => Ret { val: w.mem.peek(out, size), ok: true, text: None },
            Shape::Res => Ret { val: w.mem.peek(out, size), ok: w.mem.peek(out + 16, 1) == 1, text: None },
            Shape::Flag => Ret { val: 0, ok: w.mem.peek(out, 1) == 1, text: None },
            Shape::Other => {
                let text = if r.call.op == Op::LockFree { w.mem.bytes(out, 4) } else { r.text.clone() };
                Ret { val: w.mem.peek(out, size), ok: w.mem.peek(out + 16, 1) == 1, text: Some(text) }
            }
        }
    }
    /// Handles control reaching a host address; true = end of slice.
    fn stub(&mut self, c: usize, pc: u64) -> bool {
        let img = self.w.img.clone();
        if pc == img.ret_magic() { return self.finish(c); }
        let i = ((pc - img.lay.stub) / STUB_STEP) as usize;
        let name = STUBS.get(i).copied().unwrap_or("?");
        let top = self.cs[c].frames.len() - 1;
        let ri = self.cs[c].frames[top].rec;
        match name {
            "host_panic" => { self.abandon(c, Out::Panicked); true }
            "host_trap" => { self.fail(Kind::Panic, format!("cpu{c}: abort() called during {}", self.recs[ri].call.show())); true }
            "host_closure" => {
                if self.w.mem.cpus[c].budget == 0 { return true; }
                let (old, new) = (self.cs[c].cpu.arg(&self.w.mem, 1), self.cs[c].cpu.arg(&self.w.mem, 2));
                let size = self.recs[ri].call.ty.size(self.w.sem.word);
                let v = self.w.mem.peek(old, size);
                let call = self.recs[ri].call.clone();
                let Some(cl) = call.clo.clone() else { self.inc = Some("closure missing".into()); return true; };
                self.cs[c].frames[top].nclo += 1;
                let k = self.cs[c].frames[top].nclo;
                self.clock += 1;
                if k > 5000 { self.fail(Kind::Progress, format!("closure of {} invoked {k} times", call.show())); return true; }
                let mk = mask_bits(if call.ty == Ty::Bool { 1 } else { size * 8 });
                let ret = match cl.ret { CloRet::Const(x) => Some(x & mk), CloRet::Add(x) => Some(v.wrapping_add(x) & mk), CloRet::Xor(x) => Some((v ^ x) & mk), CloRet::Decline | CloRet::Panic => None, CloRet::DeclineIf(x, y) => if v == x & mk { None } else { Some(y & mk) } };
                self.recs[ri].clo.push((v, ret));
                let now = self.clock;
                self.recs[ri].clo_at.push(now);
                if let Some(t) = &mut self.w.mem.trace { t.push(format!("  cpu{c} closure({v:#x}) -> {ret:x?}")); }
                if cl.panic_at == k || cl.ret == CloRet::Panic { self.st.clopanics += 1; self.abandon(c, Out::CloPanicked); return true; }
                self.cs[c].frames[top].pend = Some((new, 0, size, ret.unwrap_or(0)));
                if let (Some(nst), 1) = (&cl.nested, k) {
                    self.st.nested += 1;
                    self.cs[c].frames[top].pend = Some((new, ret.is_some() as u64, size, ret.unwrap_or(0)));
                    let saved = Box::new(self.cs[c].cpu.clone());
                    let sp = (self.cs[c].cpu.sp() - 0x100) & !15;
                    self.begin(c, (**nst).clone(), FK::Nested, sp, Some(saved), vec![]);
                    return false;
                }
                self.clo_return(c, ret.is_some());
                false
            }
            "host_sink" => {
                let (buf, len) = (self.cs[c].cpu.arg(&self.w.mem, 1), self.cs[c].cpu.arg(&self.w.mem, 2));
                let b = self.w.mem.bytes(buf, (len as usize).min(4096));
                self.cs[c].frames[top].nsink += 1;
                let k = self.cs[c].frames[top].nsink;
                let cl = self.recs[ri].call.clo.clone();
                if cl.as_ref().is_some_and(|x| x.panic_at == k) { self.st.clopanics += 1; self.abandon(c, Out::CloPanicked); return true; }
                let fail = self.p.sink_fail != 0 && self.cs[c].frames[top].nsink == self.p.sink_fail;
                if fail { self.st.sinkfail += 1; } else { self.recs[ri].text.extend_from_slice(&b); }
                if let (Some(nst), 1) = (cl.and_then(|x| x.nested), k) {
                    self.st.nested += 1;
                    self.cs[c].frames[top].pend = Some((0, !fail as u64, 0, 0));
                    let saved = Box::new(self.cs[c].cpu.clone());
                    let sp = (self.cs[c].cpu.sp() - 0x100) & !15;
                    self.begin(c, *nst, FK::Nested, sp, Some(saved), vec![]);
                    return false;
                }
                self.cs[c].cpu.do_return(&self.w.mem, !fail as u64);
                false
            }
            "host_source" => {
                let out = self.cs[c].cpu.arg(&self.w.mem, 1);
                let (call, size) = (self.recs[ri].call.clone(), self.recs[ri].call.ty.size(self.w.sem.word));
                let fail = self.p.sink_fail != 0;
                if fail { self.st.sinkfail += 1; } else {
                    let a = call.a & mask_bits(size * 8);
                    if matches!(call.ty, Isize | Usize) {
                        let v = if call.ty == Isize && a >> (size * 8 - 1) & 1 != 0 { a | !mask_bits(size * 8) } else { a };
                        self.w.mem.poke_private(out, 8, v & mask_bits(64));
                    } else { self.w.mem.poke_private(out, size, a); }
                }
                self.cs[c].cpu.do_return(&self.w.mem, !fail as u64);
                false
            }
            "host_cs_acquire" => {
                if self.w.mem.cpus[c].budget == 0 { return true; }
                if self.cs_owner.is_some_and(|o| o != c) { self.cs[c].blocked = true; return true; }
                self.w.mem.cpus[c].budget -= 1;
                let _ = self.w.mem.fence_now(true, true, true, true);
                self.cs_owner = Some(c);
                self.cs_depth += 1;
                self.w.mem.cs_holder = Some(c);
                self.st.cs += 1;
                let tok = 0x1000_0000 | (self.clock as u32 & 0xffff) << 8 | self.cs_depth as u32;
                let on = self.cs[c].cpu.irq_on();
                self.cs[c].cs.push(tok);
                self.cs[c].cs_irq.push(on);
                self.cs[c].cpu.set_irq(false);
                if let Some(t) = &mut self.w.mem.trace { t.push(format!("  cpu{c} critical section acquired, token {tok:#x}")); }
                self.cs[c].cpu.do_return(&self.w.mem, tok as u64);
                false
            }
            "host_cs_release" => {
                let tok = self.cs[c].cpu.arg_u32(&self.w.mem, 0);
                if self.cs_owner != Some(c) { self.fail(Kind::Cs, format!("critical section released by cpu{c} which does not hold it")); return true; }
                let want = self.cs[c].cs.pop();
                if want != Some(tok) { self.fail(Kind::Cs, format!("critical section released with token {tok:#x}, expected {want:x?}")); return true; }
                let on = self.cs[c].cs_irq.pop().unwrap_or(true);
                let _ = self.w.mem.fence_now(true, true, true, true);
                self.cs_depth -= 1;
                if self.cs_depth == 0 { self.cs_owner = None; self.w.mem.cs_holder = None; }
                self.cs[c].cpu.set_irq(on);
                if let Some(t) = &mut self.w.mem.trace { t.push(format!("  cpu{c} critical section released, token {tok:#x}")); }
                self.cs[c].cpu.do_return(&self.w.mem, 0);
                false
            }
            "host_getauxval" => {
                let key = self.cs[c].cpu.arg(&self.w.mem, 0);
                let v = match self.w.img.cfg.arch { crate::guest::Arch::A64 => self.p.feat.a64.auxv(key), crate::guest::Arch::Ppc64 => self.p.feat.ppc.auxv(key), _ => 0 };
                self.st.cpuids += 1;
                if let Some(t) = &mut self.w.mem.trace { t.push(format!("  cpu{c} getauxval({key}) -> {v:#x}")); }
                self.cs[c].cpu.do_return(&self.w.mem, v);
                false
            }
            "host_elfaux" | "host_sysctlbyname" | "host_sysctl" | "host_getisax" | "host_zxfeat" | "host_procfeat" | "host_sysprop" | "host_dlsym" => {
                let a: Vec<u64> = (0..6).map(|i| self.cs[c].cpu.arg(&self.w.mem, i)).collect();
                self.st.cpuids += 1;
                let Some(v) = self.os_query(name, &a) else { self.inc = Some(format!("{name}{a:x?} not modelled")); return true };
                if let Some(t) = &mut self.w.mem.trace { t.push(format!("  cpu{c} {}({a:x?}) -> {v:#x}", &name[5..])); }
                self.cs[c].cpu.do_return(&self.w.mem, v);
                false
            }
            _ => { self.inc = Some(format!("host call {name} not modelled")); true }
        }
    }
    fn cstr(&self, a: u64) -> String { let b: Vec<u8> = (0..64).map(|i| self.w.mem.peek(a + i, 1) as u8).take_while(|x| *x != 0).collect(); String::from_utf8_lossy(&b).into_owned() }
    /// What the simulated AArch64 operating systems answer when asked about the CPU (they write results to memory of the
    /// caller); `report` makes them fail or answer in part. On failure nothing is written.
    fn os_query(&mut self, name: &str, a: &[u64]) -> Option<u64> {
        let triple = self.w.img.cfg.triple;
        let (ppc, f, report) = match self.w.img.cfg.arch {
            crate::guest::Arch::A64 => (false, self.p.feat.a64, self.p.feat.a64.report),
            crate::guest::Arch::Ppc64 => (true, self.p.feat.a64, self.p.feat.ppc.report),
            _ => return None,
        };
        let word = self.w.img.cfg.arch.word() as u64;
        let be = self.w.img.be;
        let m = &mut self.w.mem;
        let err = u32::MAX as u64;
        let put = |m: &mut crate::mem::Mem, at: u64, b: &[u8]| for (i, x) in b.iter().enumerate() { m.poke_private(at + i as u64, 1, *x as u128) };
        Some(match name {
            "host_elfaux" => {
                let key = match a[0] as u32 { 25 => 16, 26 => 26, _ => return Some(22) };
                if a[2] as u32 as u64 != word { return Some(22); }
                if report == 1 || !ppc && (f.report == 2 && key == 26 || f.report == 3 && key == 16) { return Some(2); }
                let v = if ppc { self.p.feat.ppc.auxv(key) } else { f.auxv(key) };
                put(m, a[1], &if be { v.to_be_bytes() } else { v.to_le_bytes() });
                0
            }
            "host_sysctl" => {
                if a[1] != 2 || m.peek(a[0], 4) != 7 || m.peek(a[3], 8) != 8 { return None; }
                let (r, ok) = match m.peek(a[0] + 4, 4) { 2 => (0, f.report & 1 == 0), 3 => (1, f.report & 1 == 0), 7 => (2, f.report == 0 || f.report == 3), _ => return None };
                if !ok { return Some(err); }
                put(m, a[2], &f.idreg(r).to_le_bytes());
                0
            }
            "host_sysctlbyname" => {
                let n = self.cstr(a[0]);
                let m = &mut self.w.mem;
                let len = m.peek(a[2], 8) as u64;
                if a[3] != 0 || a[4] != 0 { return None; }
                if n == "machdep.cpu0.cpu_id" {
                    if f.report == 1 { return Some(err); }
                    // NetBSD 9 has a shorter structure than NetBSD 10
                    let sz = if f.report & 2 != 0 { 116u64 } else { 136 };
                    let mut b: Vec<u8> = (0..sz).map(|i| 0x5a ^ (i as u8).wrapping_mul(0x1d)).collect();
                    for (r, o) in [(0, 40), (1, 48), (2, 72)] { b[o..o + 8].copy_from_slice(&f.idreg(r).to_le_bytes()); }
                    b.truncate(len as usize);
                    put(m, a[1], &b);
                    put(m, a[2], &(b.len() as u64).to_le_bytes());
                    return Some(0);
                }
                let v = match n.as_str() {
                    "hw.optional.arm.FEAT_LSE" if f.report & 1 == 0 => f.lse,
                    "hw.optional.armv8_1_atomics" if f.report != 1 => f.lse,
                    "hw.optional.arm.FEAT_LSE2" if f.report == 0 || f.report == 3 => f.lse2,
                    "hw.optional.arm.FEAT_LRCPC" | "hw.optional.arm.FEAT_LRCPC2" => return None,
                    _ => return Some(err),
                };
                if len < 4 { return Some(err); }
                put(m, a[1], &(v as u32).to_le_bytes());
                put(m, a[2], &4u64.to_le_bytes());
                0
            }
            "host_getisax" => {
                let n = a[1] as u32;
                let w = [0x0f0f_0fff & !(1 << 15) | if f.report & 1 == 0 { (f.lse as u32) << 15 } else { 0 } | (f.rcpc as u32) << 28, (f.rcpc2 as u32) << 1 | (f.lse2 as u32) << 2];
                let k = if f.report == 1 { 0 } else if f.report == 2 { 1 } else { 2 }.min(n as usize);
                for i in 0..k { put(m, a[0] + 4 * i as u64, &w[i].to_le_bytes()); }
                k as u64
            }
            "host_zxfeat" => {
                if a[0] as u32 != 0 { return Some(-14i32 as u32 as u64); }
                if f.report != 0 { return Some(-2i32 as u32 as u64); }
                put(m, a[1], &(0xffu32 | (f.lse as u32) << 8).to_le_bytes());
                0
            }
            "host_procfeat" => match a[0] as u32 { 34 => (f.lse && f.report & 1 == 0) as u64, 62 => (f.lse2 && (f.report == 0 || f.report == 3)) as u64, 45 => f.rcpc as u64, _ => 0 },
            "host_dlsym" => {
                // the default handle: 0 on Linux, -2 on the BSDs
                let h = if triple.contains("bsd") { 0u64.wrapping_sub(2) } else { 0 };
                if a[0] != h { return Some(0); }
                match self.cstr(a[1]).as_str() {
                    "getauxval" if !triple.contains("bsd") && report != 1 => self.w.img.stub("host_getauxval"),
                    "elf_aux_info" if triple.contains("bsd") && report != 1 => self.w.img.stub("host_elfaux"),
                    _ => 0,
                }
            }
            "host_sysprop" => {
                if self.cstr(a[0]) != "ro.arch" { return None; }
                let s: &[u8] = if f.report == 4 { b"exynos9810" } else if f.report == 0 && f.lse2 { b"" } else if f.rcpc { b"gs101" } else { b"exynos9820" };
                put(&mut self.w.mem, a[1], s);
                put(&mut self.w.mem, a[1] + s.len() as u64, &[0]);
                s.len() as u64
            }
            _ => return None,
        })
    }
    fn clo_return(&mut self, c: usize, some: bool) {
        let top = self.cs[c].frames.len() - 1;
        if let Some((new, _, size, v)) = self.cs[c].frames[top].pend.take() { if some { self.w.mem.poke_private(new, size, v); } }
        self.cs[c].cpu.do_return(&self.w.mem, some as u64);
    }
    /// The operation's frame ends without returning (panic).
    fn abandon(&mut self, c: usize, out: Out) {
        let fr = self.cs[c].frames.pop().unwrap();
        self.clock += 1;
        if let Some(t) = &mut self.w.mem.trace { t.push(format!("[{}] cpu{c} operation panicked ({out:?})", self.clock)); }
        self.recs[fr.rec].out = out;
        self.recs[fr.rec].res = self.clock;
        let on = self.cs[c].cpu.irq_on();
        if on != fr.irq_on && fr.kind == FK::Top { self.fail(Kind::IrqState, format!("interrupt enable state changed from {} to {on} by a panicking operation", fr.irq_on)); }
        if !self.cs[c].cs.is_empty() && fr.kind == FK::Top { self.fail(Kind::Cs, "panic inside a critical section".into()); }
        match fr.kind {
            FK::Nested => self.abandon(c, Out::CloPanicked),
            FK::Irq => { self.after_irq(c, fr); }
            FK::Top => {}
        }
        self.set_allow(c);
    }
    fn after_irq(&mut self, c: usize, mut fr: Frame) {
        if !fr.queue.is_empty() {
            let q = fr.queue.remove(0);
            let st = fr.saved.take();
            let tid = self.recs[fr.rec].tid;
            self.begin(c, q, FK::Irq, fr.sp0, st, fr.queue);
            if let Some(x) = self.recs.last_mut() { x.tid = tid; }
            return;
        }
        self.cs[c].cpu = *fr.saved.unwrap();
        self.w.mem.clear_resv();
        if let Some(t) = &mut self.w.mem.trace { t.push(format!("  !! return from interrupt on cpu{c}")); }
    }
    fn set_allow(&mut self, c: usize) { self.w.mem.cpus[c].also = self.cs[c].frames.last().map_or([0; 2], |f| f.also); self.w.mem.cpus[c].allow = self.cs[c].frames.last().map_or((0, 0), |f| f.allow); self.w.mem.cpus[c].plain = self.cs[c].frames.last().is_some_and(|f| { let k = &self.recs[f.rec].call; k.local || k.op.exclusive() }); }
    fn finish(&mut self, c: usize) -> bool {
        let fr = self.cs[c].frames.pop().unwrap();
        let ret = self.result(&fr);
        self.clock += 1;
        let show = self.recs[fr.rec].call.show();
        if let Some(t) = &mut self.w.mem.trace { t.push(format!("[{}] cpu{c} ends {show} -> {:#x} ok={}", self.clock, ret.val, ret.ok)); }
        self.recs[fr.rec].out = Out::Done(ret);
        if self.recs[fr.rec].call.fuse.is_some() {
            let second = self.result_at(&fr, fr.out + 32);
            let y = |k: u64| self.w.mem.peek(fr.out + 24 + k, 1) as u8;
            let (y0, y1) = (y(0), y(1));
            if let Some(t) = &mut self.w.mem.trace { t.push(format!("      y0 = {y0}, y1 = {y1}, second result {:#x} ok={}", second.val, second.ok)); }
            self.recs[fr.rec].sub = Some((y0, y1, second));
        }
        if let Strat::Starve { victim, .. } = self.p.strat { if c != victim { self.others_done += 1; } }
        self.recs[fr.rec].res = self.clock;
        if let Some(m) = self.cs[c].cpu.check_saved(fr.sp0, 3) { self.fail(Kind::Saved, format!("{show} on cpu{c}: {m}")); }
        let st = self.cs[c].cpu.status();
        if st != fr.status { self.fail(Kind::IrqState, format!("{show} on cpu{c}: status register {:#x} on entry, {st:#x} on return", fr.status)); }
        let on = self.cs[c].cpu.irq_on();
        if on != fr.irq_on { self.fail(Kind::IrqState, format!("{show} on cpu{c}: interrupts {} on entry, {} on return", if fr.irq_on { "enabled" } else { "disabled" }, if on { "enabled" } else { "disabled" })); }
        let depth = self.cs[c].frames.iter().map(|_| 0).sum::<usize>();
        if fr.kind == FK::Top && self.cs[c].cs.len() > depth { self.fail(Kind::Cs, format!("{show} on cpu{c} returned inside a critical section")); }
        let r = match fr.kind {
            FK::Top => true,
            FK::Nested => {
                self.cs[c].cpu = *fr.saved.unwrap();
                let some = self.cs[c].frames.last().and_then(|f| f.pend).is_some_and(|p| p.1 == 1);
                self.clo_return(c, some);
                false
            }
            FK::Irq => { self.after_irq(c, fr); false }
        };
        self.set_allow_keep(c, r);
        r
    }
    fn set_allow_keep(&mut self, c: usize, top: bool) { if !top { self.set_allow(c); } else { self.w.mem.cpus[c].allow = (0, 0); self.w.mem.cpus[c].also = [0; 2]; } }
}
pub fn recs_text(recs: &[Rec]) -> Vec<J> {
    recs.iter().map(|r| J::Str(format!("cpu{} [{}..{}] {} => {}", r.cpu, r.inv, if r.res == u64::MAX { "pending".into() } else { r.res.to_string() }, r.call.show(), match &r.out {
        Out::Done(x) => match r.call.op.shape() { Shape::Unit => "()".into(), Shape::Val => format!("{:#x}", x.val), Shape::Res => format!("{}({:#x})", if x.ok { "Ok" } else { "Err" }, x.val), Shape::Flag => format!("{}", x.ok), Shape::Other => format!("{:?} ok={}", x.text.as_ref().map(|t| String::from_utf8_lossy(t).into_owned()), x.ok) },
        o => format!("{o:?}"),
    } + &r.sub.as_ref().map_or(String::new(), |s| format!(", y0 = {}, y1 = {}, then {:#x} ok={}", s.0, s.1, s.2.val, s.2.ok))))).collect()
}
