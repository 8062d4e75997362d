//! The simulated memory system: committed RAM with per-granule write histories, per-CPU store
//! buffers, stale (time-indexed) loads, exclusive reservations, and the access log that makes
//! multi-access instructions restartable at every access.
use crate::util::Chooser;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Model { Sc, Tso, Weak }

#[derive(Clone, Debug)]
pub enum Trap {
    /// The instruction needs another shared access but the CPU's turn is over.
    Yield,
    /// Memory fault (address, what).
    Fault(u64, &'static str),
    /// Instruction exists but the simulated CPU lacks the feature.
    Illegal(u64, String),
    /// The emulator does not know the instruction (a harness limit, not a finding).
    Unknown(u64, String),
    /// Debug/trap instruction executed (ud2, brk, ebreak...).
    Abort(u64, &'static str),
}

#[derive(Clone, Copy, Debug)]
pub struct Layout {
    pub img: u64,
    pub obj: u64,
    pub obj_len: u64,
    pub stk: u64,
    pub stk_len: u64,
    pub stub: u64,
    pub end: u64,
}
pub const LAYOUT32: Layout = Layout { img: 0x100_0000, obj: 0x120_0000, obj_len: 0x1_0000, stk: 0x121_0000, stk_len: 0x8000, stub: 0x170_0000, end: 0x126_0000 };
pub const LAYOUT16: Layout = Layout { img: 0x4000, obj: 0x0400, obj_len: 0x0c00, stk: 0x1000, stk_len: 0x0a00, stub: 0xff00, end: 0xfe00 };

/// Data space below 64 KiB, program memory above it.
pub const LAYOUT_AVR: Layout = Layout { img: 0x8000, obj: 0x0400, obj_len: 0x0c00, stk: 0x1000, stk_len: 0x0a00, stub: 0x2_f000, end: 0x2_f000 };

#[derive(Clone, Copy, Default)]
pub struct LK {
    /// 0 plain, 1 acquire (RCpc), 2 acquire (RCsc)
    pub acq: u8,
    pub tear: bool,
    pub ex: bool,
    /// Second part of an exclusive pair: keeps the reservation the first part made.
    pub cont: bool,
}

#[derive(Clone, Copy)]
struct Ent { addr: u64, size: u8, val: [u8; 16], epoch: u32, bar: u64, rel: bool, owned: bool, born: u64 }

#[derive(Clone, Copy)]
struct Resv { line: u64, ok: bool }

#[derive(Default)]
pub struct CpuMem {
    buf: Vec<Ent>,
    epoch: u32,
    /// when the last write-write fence was executed (non-multi-copy-atomic memory)
    bar: u64,
    vr_bar: u64,
    load_max: u64,
    last_t: u64,
    last_store: u64,
    last_rel: u64,
    coh: Vec<(u64, u64)>,
    resv: Option<Resv>,
    log: Vec<u128>,
    pos: usize,
    pub budget: u32,
    pub stack: (u64, u64),
    /// Bytes of the objects region the current operation may write.
    pub allow: (u64, u64),
    /// plain data the operation's caller touches around it
    pub also: [u64; 2],
    /// the current operation has exclusive access: plain accesses are its own business
    pub plain: bool,
    pub nacc: u64,
    pub paused: bool,
}

/// A committed write on its way to the other CPUs (non-multi-copy-atomic memory).
#[derive(Clone, Copy)]
struct Wr { t: u64, writer: u8, epoch: u32, bar: u64, g: (u64, u64), prop: [u64; NPROP] }
const NPROP: usize = 8;
const NEVER: u64 = u64::MAX;
/// `drainable` entries with this bit are writes reaching a CPU rather than stores leaving one.
const PROP: usize = 1 << 20;

struct Gran { g: u64, vers: Vec<(u64, [u8; 8])>, writer: u8 }

#[derive(Clone, Copy, Default, Debug)]
pub struct MStats {
    pub stale: u64,
    pub delayed: u64,
    pub ooo: u64,
    pub scfail: u64,
    pub owned: u64,
    pub torn: u64,
    pub accesses: u64,
    pub fences: u64,
    pub split: u64,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct FaultP { pub p_drain: f64, pub p_stale: f64, pub p_scfail: f64, pub p_owned: f64, pub cap: usize, pub nmca: bool }

pub struct Mem {
    pub lay: Layout,
    pub base: u64,
    pub ram: Vec<u8>,
    pub text: (u64, u64),
    pub model: Model,
    pub be: bool,
    /// RISC-V style: an AMO is a single memory operation.
    pub amo_single: bool,
    pub now: u64,
    pub cpus: Vec<CpuMem>,
    pub cur: usize,
    pub ch: Chooser,
    pub fp: FaultP,
    pub stats: MStats,
    idx: Vec<u32>,
    hist: Vec<Gran>,
    nhist: usize,
    wr: Vec<Wr>,
    pub viol: Option<String>,
    /// Bytes that must always hold 0 or 1.
    pub bools: Vec<u64>,
    pub trace: Option<Vec<String>>,
    /// In objects region: enforce `allow`.
    pub isolate: bool,
    pub fair: bool,
    /// Instructions executed in the middle of a critical section see this flag (C20).
    pub obj_access_guard: Option<fn(&Mem, u64) -> bool>,
    pub cs_holder: Option<usize>,
    pub ifetch: u64,
    pub state_hash: u64,
}

impl Mem {
    pub fn new(lay: Layout) -> Mem {
        let base = lay.img.min(lay.obj);
        let len = (lay.end - base) as usize;
        Mem {
            lay, base, ram: vec![0; len], text: (0, 0), model: Model::Sc, be: false, amo_single: false, now: 0,
            cpus: vec![], cur: 0, ch: Chooser::new(0), fp: FaultP::default(), stats: MStats::default(),
            idx: vec![0; len / 8 + 2], hist: vec![], nhist: 0, wr: vec![], viol: None, bools: vec![], trace: None, isolate: true,
            fair: false, obj_access_guard: None, cs_holder: None, ifetch: 0, state_hash: 0,
        }
    }
    /// Start of a run: undo every write of the previous run.
    pub fn reset(&mut self, ncpu: usize) {
        for i in 0..self.nhist {
            let g = self.hist[i].g;
            let o = (g * 8 - self.base) as usize;
            let v = self.hist[i].vers[0].1;
            self.ram[o..o + 8].copy_from_slice(&v);
            self.idx[o / 8] = 0;
            self.hist[i].vers.clear();
        }
        self.nhist = 0;
        self.wr.clear();
        self.now = 1;
        while self.cpus.len() < ncpu { self.cpus.push(CpuMem::default()); }
        self.cpus.truncate(ncpu);
        for (i, c) in self.cpus.iter_mut().enumerate() {
            c.buf.clear();
            c.epoch = 0;
            c.bar = 0;
            c.vr_bar = 0;
            c.load_max = 0;
            c.last_t = 0;
            c.last_store = 0;
            c.last_rel = 0;
            c.coh.clear();
            c.resv = None;
            c.log.clear();
            c.pos = 0;
            c.budget = 0;
            c.stack = (self.lay.stk + i as u64 * self.lay.stk_len, self.lay.stk + (i as u64 + 1) * self.lay.stk_len);
            c.allow = (0, 0);
            c.also = [0; 2];
            c.nacc = 0;
            c.paused = false;
        }
        // private memory starts every run with the same content
        for i in 0..ncpu as u64 {
            let (a, b) = ((self.lay.stk + i * self.lay.stk_len - self.base) as usize, (self.lay.stk + (i + 1) * self.lay.stk_len - self.base) as usize);
            let (lo, hi) = ((b - a).min(0x600), (b - a).min(0x2000));
            self.ram[a..a + lo].fill(0xCC);
            self.ram[b - hi..b].fill(0xCC);
        }
        self.viol = None;
        self.bools.clear();
        self.fair = false;
        self.cs_holder = None;
        self.state_hash = 0;
    }
    #[inline]
    fn off(&self, addr: u64, size: u64) -> Option<usize> {
        let o = addr.wrapping_sub(self.base);
        if o < self.ram.len() as u64 && o + size <= self.ram.len() as u64 { Some(o as usize) } else { None }
    }
    fn asm_val(&self, b: &[u8]) -> u128 {
        let mut v = 0u128;
        if self.be {
            for x in b { v = v << 8 | *x as u128; }
        } else {
            for x in b.iter().rev() { v = v << 8 | *x as u128; }
        }
        v
    }
    fn to_bytes(&self, v: u128, size: usize) -> [u8; 16] {
        let mut b = [0u8; 16];
        for i in 0..size {
            let sh = if self.be { 8 * (size - 1 - i) } else { 8 * i };
            b[i] = (v >> sh) as u8;
        }
        b
    }
    /// Host-side access to committed memory (setup, final state, private areas).
    pub fn peek(&self, addr: u64, size: u32) -> u128 {
        match self.off(addr, size as u64) { Some(o) => self.asm_val(&self.ram[o..o + size as usize]), None => 0 }
    }
    /// Host-side initialisation write, undone at the next reset.
    pub fn poke(&mut self, addr: u64, size: u32, v: u128) {
        let b = self.to_bytes(v, size as usize);
        for i in 0..size as u64 {
            let a = addr + i;
            let h = self.gran(a >> 3);
            let o = (a - self.base) as usize;
            self.ram[o] = b[i as usize];
            let _ = h;
        }
        // the poked value is "time 0"
        for g in addr >> 3..=(addr + size as u64 - 1) >> 3 { self.refresh0(g); }
    }
    fn refresh0(&mut self, g: u64) {
        // keep vers[0] as the undo image; add a version at time 0 carrying the poked value
        let h = self.gran(g);
        let o = (g * 8 - self.base) as usize;
        let mut v = [0u8; 8];
        v.copy_from_slice(&self.ram[o..o + 8]);
        let vers = &mut self.hist[h].vers;
        if vers.len() == 1 { vers.push((0, v)); } else { let n = vers.len() - 1; vers[n].1 = v; }
    }
    /// A write by someone outside the simulated CPUs, in the middle of a run.
    pub fn host_write(&mut self, addr: u64, size: u32, v: u128) {
        let b = self.to_bytes(v, size as usize);
        self.now += 1;
        for g in addr >> 3..=(addr + size as u64 - 1) >> 3 { self.gran(g); }
        let o = (addr - self.base) as usize;
        self.ram[o..o + size as usize].copy_from_slice(&b[..size as usize]);
        for g in addr >> 3..=(addr + size as u64 - 1) >> 3 {
            let h = self.gran(g);
            let o = (g * 8 - self.base) as usize;
            let mut v = [0u8; 8];
            v.copy_from_slice(&self.ram[o..o + 8]);
            let now = self.now;
            let hh = &mut self.hist[h];
            hh.vers.push((now, v));
        }
        for d in self.cpus.iter_mut() { if let Some(r) = &mut d.resv { if r.line == addr >> 4 { r.ok = false; } } }
        if let Some(t) = &mut self.trace { t.push(format!("  -- other writers moved {addr:#x} to {v:#x}")); }
    }
    /// Shared memory outside the objects written so far in this run.
    pub fn touched(&self) -> Vec<(u64, [u8; 8])> {
        let mut v = vec![];
        for h in &self.hist[..self.nhist] {
            let a = h.g * 8;
            if self.in_obj(a) || self.is_stack(a) || h.vers.len() < 2 { continue; }
            let o = (a - self.base) as usize;
            let mut x = [0u8; 8];
            x.copy_from_slice(&self.ram[o..o + 8]);
            v.push((a, x));
        }
        v
    }
    /// Writes private memory from the host (args), not undone.
    pub fn poke_private(&mut self, addr: u64, size: u32, v: u128) {
        let b = self.to_bytes(v, size as usize);
        if let Some(o) = self.off(addr, size as u64) { self.ram[o..o + size as usize].copy_from_slice(&b[..size as usize]); }
    }
    pub fn bytes(&self, addr: u64, n: usize) -> Vec<u8> {
        match self.off(addr, n as u64) { Some(o) => self.ram[o..o + n].to_vec(), None => vec![] }
    }
    fn gran(&mut self, g: u64) -> usize {
        let o = ((g * 8).wrapping_sub(self.base) / 8) as usize;
        let k = self.idx[o];
        if k != 0 { return k as usize - 1; }
        let mut v = [0u8; 8];
        v.copy_from_slice(&self.ram[o * 8..o * 8 + 8]);
        if self.nhist == self.hist.len() { self.hist.push(Gran { g, vers: vec![], writer: 255 }); }
        let h = &mut self.hist[self.nhist];
        h.g = g;
        h.writer = 255;
        h.vers.clear();
        h.vers.push((0, v));
        self.nhist += 1;
        self.idx[o] = self.nhist as u32;
        self.nhist - 1
    }
    #[inline]
    fn gran_opt(&self, g: u64) -> Option<usize> {
        let o = ((g * 8).wrapping_sub(self.base) / 8) as usize;
        match self.idx.get(o) { Some(0) | None => None, Some(k) => Some(*k as usize - 1) }
    }
    fn last_time(&self, g: u64) -> u64 { self.gran_opt(g).map_or(0, |h| self.hist[h].vers.last().unwrap().0) }

    #[inline]
    fn private(&self, addr: u64, size: u64) -> bool {
        let s = self.cpus[self.cur].stack;
        let end = addr.saturating_add(size);
        (addr >= s.0 && end <= s.1) || (addr >= self.text.0 && end <= self.text.1)
    }
    fn is_stack(&self, addr: u64) -> bool { addr >= self.lay.stk && addr < self.lay.stk + self.lay.stk_len * 8 && addr < self.lay.end }
    fn in_obj(&self, addr: u64) -> bool { addr >= self.lay.obj && addr < self.lay.obj + self.lay.obj_len }

    pub fn begin_insn(&mut self) { let c = &mut self.cpus[self.cur]; c.pos = 0; }
    pub fn end_insn(&mut self) { let c = &mut self.cpus[self.cur]; c.log.clear(); c.pos = 0; }
    pub fn in_insn(&self, cpu: usize) -> bool { !self.cpus[cpu].log.is_empty() }

    /// Returns the logged value if this access already happened in this instruction; otherwise
    /// checks that the CPU may make another shared access now.
    #[inline]
    fn gate(&mut self) -> Result<Option<u128>, Trap> {
        let c = &mut self.cpus[self.cur];
        if c.pos < c.log.len() {
            let v = c.log[c.pos];
            c.pos += 1;
            return Ok(Some(v));
        }
        if c.budget == 0 { return Err(Trap::Yield); }
        c.budget -= 1;
        c.nacc += 1;
        self.stats.accesses += 1;
        Ok(None)
    }
    #[inline]
    fn done(&mut self, v: u128) -> u128 {
        let c = &mut self.cpus[self.cur];
        c.log.push(v);
        c.pos = c.log.len();
        v
    }

    // ---------------------------------------------------------------- loads
    pub fn load(&mut self, addr: u64, size: u32, k: LK) -> Result<u128, Trap> {
        if self.private(addr, size as u64) {
            let o = (addr - self.base) as usize;
            return Ok(match size {
                1 => self.ram[o] as u128,
                8 if !self.be => u64::from_le_bytes(self.ram[o..o + 8].try_into().unwrap()) as u128,
                4 if !self.be => u32::from_le_bytes(self.ram[o..o + 4].try_into().unwrap()) as u128,
                n => self.asm_val(&self.ram[o..o + n as usize]),
            });
        }
        if self.off(addr, size as u64).is_none() || self.is_stack(addr) { return Err(Trap::Fault(addr, "load outside mapped memory")); }
        let crosses = (addr >> 3) != (addr + size as u64 - 1) >> 3;
        if crosses && (k.tear || addr & (size as u64 - 1) != 0 || size < 16) {
            // not single-copy atomic: split at granule boundaries, in either order
            let first = 8 - (addr & 7);
            let (s1, s2) = (first as u32, size - first as u32);
            if s2 > 8 {
                // 16 bytes misaligned: three pieces, in address order
                let a = self.load(addr, s1, k)?;
                let b = self.load(addr + first, 8, k)?;
                let c = self.load(addr + first + 8, s2 - 8, k)?;
                let mut v = self.to_bytes(a, s1 as usize).to_vec();
                v.truncate(s1 as usize);
                v.extend_from_slice(&self.to_bytes(b, 8)[..8]);
                v.extend_from_slice(&self.to_bytes(c, (s2 - 8) as usize)[..(s2 - 8) as usize]);
                return Ok(self.asm_val(&v));
            }
            let swap = match self.gate_meta(2, 0.3)? { Some(x) => x != 0, None => false };
            let (a, b);
            if swap {
                b = self.load(addr + first, s2, k)?;
                a = self.load(addr, s1, k)?;
            } else {
                a = self.load(addr, s1, k)?;
                b = self.load(addr + first, s2, k)?;
            }
            let mut v = self.to_bytes(a, s1 as usize)[..s1 as usize].to_vec();
            v.extend_from_slice(&self.to_bytes(b, s2 as usize)[..s2 as usize]);
            self.stats.torn += 1;
            return Ok(self.asm_val(&v));
        }
        if let Some(v) = self.gate()? { return Ok(v); }
        self.check_read(addr, size as u64);
        let v = self.perform_load(addr, size, k);
        if let Some(t) = &mut self.trace { t.push(format!("  cpu{} pc={:#x} load{} [{:#x}] -> {:#x}{}", self.cur, self.ifetch, size * 8, addr, v, if k.acq > 0 { " acq" } else { "" })); }
        Ok(self.done(v))
    }
    /// A recorded meta choice that is part of the instruction's log (no budget).
    fn gate_meta(&mut self, n: usize, p: f64) -> Result<Option<u128>, Trap> {
        let c = &mut self.cpus[self.cur];
        if c.pos < c.log.len() {
            let v = c.log[c.pos];
            c.pos += 1;
            return Ok(Some(v));
        }
        if c.budget == 0 { return Err(Trap::Yield); }
        let v = if n == 2 { self.ch.coin(p) as u128 } else { 0 };
        self.done(v);
        Ok(Some(v))
    }
    fn check_read(&mut self, addr: u64, size: u64) {
        if self.in_obj(addr) {
            if size == 1 && self.cpus[self.cur].also.contains(&addr) { return; }
            let (lo, hi) = self.cpus[self.cur].allow;
            if self.isolate && hi > lo {
                let w = (hi - lo).max(4);
                let (wl, wh) = (lo / w * w, (hi + w - 1) / w * w);
                if addr < wl || addr + size > wh {
                    self.viol.get_or_insert(format!("isolation: read of {size} bytes at {addr:#x} outside the word of the operation's atomic [{lo:#x},{hi:#x})"));
                }
            }
            if let Some(f) = self.obj_access_guard { if !f(self, addr) { self.viol.get_or_insert(format!("critical section: object read at {addr:#x} outside the critical section")); } }
        }
    }
    fn perform_load(&mut self, addr: u64, size: u32, k: LK) -> u128 {
        let c = self.cur;
        match self.model {
            Model::Sc => { if k.ex { self.reserve(addr, true, k.cont); } self.peek(addr, size) }
            Model::Tso => {
                if let Some(v) = self.forward(addr, size) { return v; }
                if k.ex { self.reserve(addr, true, k.cont); }
                self.peek(addr, size)
            }
            Model::Weak => {
                if k.acq == 2 {
                    // RCsc: earlier release stores of this CPU become visible first
                    while let Some(i) = self.cpus[c].buf.iter().rposition(|e| e.rel) { self.force(c, i); }
                }
                if k.ex && self.nmca() {
                    let p = if self.fair { 0.0 } else { self.fp.p_stale };
                    if !self.ch.coin(p) { self.pull(c, addr, size as u64); }
                }
                if k.ex || k.acq > 0 {
                    self.drain_overlap(c, addr, size as u64, k.ex);
                    if k.ex { self.drain_foreign_owned(c, addr, size as u64); }
                } else if let Some(v) = self.forward(addr, size) {
                    self.cpus[c].last_t = 0;
                    return v;
                }
                let (g0, g1) = (addr >> 3, (addr + size as u64 - 1) >> 3);
                let mut floor = self.cpus[c].vr_bar;
                if k.acq == 2 { floor = floor.max(self.cpus[c].last_rel); }
                for &(g, t) in &self.cpus[c].coh { if g >= g0 && g <= g1 { floor = floor.max(t); } }
                // candidate satisfaction times: every version change after floor, plus the floor itself
                let mut times: Vec<u64> = vec![];
                for g in g0..=g1 {
                    if let Some(h) = self.gran_opt(g) {
                        for v in self.hist[h].vers.iter().rev() {
                            let a = self.arrival(v.0, c);
                            if a == NEVER { continue; }
                            if a > floor { times.push(a); } else { break; }
                        }
                    }
                }
                let t;
                if times.is_empty() {
                    t = floor;
                } else {
                    times.push(floor);
                    times.sort_unstable_by(|a, b| b.cmp(a));
                    times.dedup();
                    let n = times.len();
                    let p = if self.fair { 0.0 } else { self.fp.p_stale };
                    let i = self.ch.with(n, |r| if r.chance(p) { 1 + r.usize(n - 1) } else { 0 });
                    if i > 0 { self.stats.stale += 1; }
                    t = times[i];
                }
                let mut b = [0u8; 16];
                for i in 0..size as u64 { b[i as usize] = self.byte_at(addr + i, t); }
                let v = self.asm_val(&b[..size as usize]);
                // effective view: the newest version read is what matters; t is already minimal
                let cm = &mut self.cpus[c];
                cm.load_max = cm.load_max.max(t);
                cm.last_t = t;
                if k.acq > 0 { cm.vr_bar = cm.vr_bar.max(t); }
                for g in g0..=g1 { set_coh(&mut cm.coh, g, t); }
                if k.ex {
                    let mut ok = true;
                    for g in g0..=g1 { if self.arrival(self.last_time(g), c) > t { ok = false; } }
                    // own earlier writes do not break the reservation, but a stale read of a newer foreign value must
                    self.reserve(addr, ok, k.cont);
                }
                v
            }
        }
    }
    fn reserve(&mut self, addr: u64, ok: bool, cont: bool) {
        let r = &mut self.cpus[self.cur].resv;
        let ok = ok && (!cont || matches!(r, Some(Resv { line, ok: true }) if *line == addr >> 4));
        *r = Some(Resv { line: addr >> 4, ok });
    }
    fn byte_at(&self, addr: u64, t: u64) -> u8 {
        let o = (addr - self.base) as usize;
        match self.gran_opt(addr >> 3) {
            None => self.ram[o],
            Some(h) => {
                let vers = &self.hist[h].vers;
                let mut i = vers.len() - 1;
                while i > 0 && self.arrival(vers[i].0, self.cur) > t { i -= 1; }
                vers[i].1[(addr & 7) as usize]
            }
        }
    }
    fn forward(&mut self, addr: u64, size: u32) -> Option<u128> {
        let c = self.cur;
        if self.cpus[c].buf.is_empty() { return None; }
        let i = self.cpus[c].buf.iter().rposition(|e| e.addr < addr + size as u64 && addr < e.addr + e.size as u64)?;
        let e = self.cpus[c].buf[i];
        if e.addr <= addr && addr + size as u64 <= e.addr + e.size as u64 && !e.owned {
            let o = (addr - e.addr) as usize;
            return Some(self.asm_val(&e.val[o..o + size as usize]));
        }
        self.drain_overlap(c, addr, size as u64, false);
        None
    }
    fn drain_overlap(&mut self, c: usize, addr: u64, size: u64, line: bool) {
        let (lo, hi) = if line { (addr & !15, (addr & !15) + 16) } else { (addr, addr + size) };
        while let Some(i) = self.cpus[c].buf.iter().rposition(|e| e.addr < hi && lo < e.addr + e.size as u64) { self.force(c, i); }
    }
    /// Everything a write-write fence put before the next write.
    fn drain_older(&mut self, c: usize) {
        let ep = self.cpus[c].epoch;
        while let Some(i) = self.cpus[c].buf.iter().rposition(|e| e.epoch < ep) { self.force(c, i); }
    }
    fn drain_foreign_owned(&mut self, c: usize, addr: u64, size: u64) {
        let (lo, hi) = (addr & !15, ((addr + size - 1) & !15) + 16);
        for d in 0..self.cpus.len() {
            if d == c { continue; }
            while let Some(i) = self.cpus[d].buf.iter().position(|e| e.owned && e.addr < hi && lo < e.addr + e.size as u64) { self.force(d, i); }
        }
    }
    /// Make entry i of cpu c visible now, together with everything that must precede it.
    fn force(&mut self, c: usize, i: usize) {
        let n = self.cpus[c].buf.len() - i; // entries from the end: earlier ones may leave meanwhile
        loop {
            let i = match self.cpus[c].buf.len().checked_sub(n) { Some(i) => i, None => return };
            match self.blocker(c, i) {
                None => { self.drain(c, i); return; }
                Some(j) => self.force(c, j),
            }
        }
    }
    fn blocker(&self, c: usize, i: usize) -> Option<usize> {
        if i == 0 { return None; }
        let b = &self.cpus[c].buf;
        let e = &b[i];
        if self.model == Model::Tso || e.rel { return Some(0); }
        for (j, x) in b[..i].iter().enumerate() {
            if x.epoch < e.epoch { return Some(j); }
            if x.addr < e.addr + e.size as u64 && e.addr < x.addr + x.size as u64 { return Some(j); }
            // same 8-byte granule: keep order (mixed-size accesses)
            if x.addr >> 3 == e.addr >> 3 { return Some(j); }
        }
        None
    }
    fn drain(&mut self, c: usize, i: usize) {
        let e = self.cpus[c].buf.remove(i);
        if i > 0 { self.stats.ooo += 1; }
        if self.now > e.born { self.stats.delayed += 1; }
        self.commit(c, e.addr, e.size as u32, &e.val, e.rel, (e.epoch, e.bar));
    }
    pub fn drain_all(&mut self, c: usize) {
        while !self.cpus[c].buf.is_empty() { self.force(c, 0); }
    }
    pub fn pending(&self, c: usize) -> usize { self.cpus[c].buf.len() + self.wr.len() }
    /// Entries that could become visible now.
    pub fn drainable(&self, c: usize, out: &mut Vec<usize>) {
        out.clear();
        for i in 0..self.cpus[c].buf.len() { if self.blocker(c, i).is_none() { out.push(i); } }
        for (i, w) in self.wr.iter().enumerate() { if w.prop[c] == NEVER { out.push(i | PROP); } }
    }
    pub fn drain_one(&mut self, c: usize, i: usize) {
        if i & PROP != 0 { self.propagate(i & !PROP, c); return; }
        if let Some(t) = &mut self.trace { let e = &self.cpus[c].buf[i]; let (a, s) = (e.addr, e.size); t.push(format!("  -- store of cpu{c} to {:#x} ({} bytes) becomes visible", a, s)); }
        self.drain(c, i);
    }

    // ------------------------------------------ memory that is not multi-copy-atomic (POWER)
    #[inline]
    fn nmca(&self) -> bool { self.fp.nmca && self.model == Model::Weak && self.cpus.len() <= NPROP }
    /// When the write committed at `t` reached CPU `c`.
    #[inline]
    fn arrival(&self, t: u64, c: usize) -> u64 {
        if self.wr.is_empty() { return t; }
        match self.wr.binary_search_by_key(&t, |w| w.t) { Ok(i) => self.wr[i].prop[c], Err(_) => t }
    }
    /// Write `i` reaches CPU `c`, after everything that has to get there first: what had reached its writer
    /// before the writer's last barrier, and earlier writes of the same granules.
    fn propagate(&mut self, i: usize, c: usize) {
        if self.wr[i].prop[c] != NEVER { return; }
        self.now += 1;
        let now = self.now;
        let mut todo = vec![i];
        while let Some(k) = todo.pop() {
            if self.wr[k].prop[c] != NEVER { continue; }
            self.wr[k].prop[c] = now;
            let w = self.wr[k];
            if let Some(t) = &mut self.trace { t.push(format!("  -- write of cpu{} to {:#x} reaches cpu{c}", w.writer, w.g.0 * 8)); }
            let p = w.writer as usize;
            for (j, x) in self.wr.iter().enumerate() {
                if x.prop[c] != NEVER { continue; }
                let first = x.prop[p] <= w.bar || (x.writer == w.writer && x.epoch < w.epoch) || (x.t < w.t && x.g.0 <= w.g.1 && w.g.0 <= x.g.1);
                if first { todo.push(j); }
            }
        }
    }
    /// The newest write to these bytes reaches CPU `c`.
    fn pull(&mut self, c: usize, addr: u64, size: u64) {
        let (g0, g1) = (addr >> 3, (addr + size - 1) >> 3);
        for i in (0..self.wr.len()).rev() {
            let w = &self.wr[i];
            if w.prop[c] == NEVER && w.g.0 <= g1 && g0 <= w.g.1 { self.propagate(i, c); }
        }
    }
    /// Everything that has reached CPU `c` reaches all others.
    fn publish(&mut self, c: usize) {
        let now = self.now;
        for i in 0..self.wr.len() {
            if self.wr[i].prop[c] <= now { for d in 0..self.cpus.len() { self.propagate(i, d); } }
        }
    }
    /// Every store becomes visible everywhere.
    pub fn settle(&mut self) {
        for c in 0..self.cpus.len() { self.drain_all(c); }
        for i in 0..self.wr.len() { for d in 0..self.cpus.len() { self.propagate(i, d); } }
    }

    fn commit(&mut self, c: usize, addr: u64, size: u32, val: &[u8; 16], rel: bool, (epoch, bar): (u32, u64)) {
        if self.model == Model::Weak { self.drain_foreign_owned(c, addr, size as u64); }
        if self.nmca() {
            self.pull(c, addr, size as u64);
            // long runs: enough of it
            let all = self.fair || self.wr.len() >= 300;
            if self.wr.len() == 300 { for i in 0..300 { for d in 0..self.cpus.len() { self.propagate(i, d); } } }
            let t = self.now + 1;
            let mut prop = [if all { t } else { NEVER }; NPROP];
            prop[c] = t;
            for d in self.cpus.len()..NPROP { prop[d] = t; }
            self.stats.split += 1;
            self.wr.push(Wr { t, writer: c as u8, epoch, bar, g: (addr >> 3, (addr + size as u64 - 1) >> 3), prop });
        }
        self.now += 1;
        let now = self.now;
        let (g0, g1) = (addr >> 3, (addr + size as u64 - 1) >> 3);
        for g in g0..=g1 { self.gran(g); }
        let o = (addr - self.base) as usize;
        self.ram[o..o + size as usize].copy_from_slice(&val[..size as usize]);
        for g in g0..=g1 {
            let h = self.gran(g);
            let o = (g * 8 - self.base) as usize;
            let mut v = [0u8; 8];
            v.copy_from_slice(&self.ram[o..o + 8]);
            let hh = &mut self.hist[h];
            hh.writer = c as u8;
            if self.model == Model::Weak { hh.vers.push((now, v)); } else if hh.vers.len() == 1 { hh.vers.push((now, v)); } else { *hh.vers.last_mut().unwrap() = (now, v); }
            set_coh(&mut self.cpus[c].coh, g, now);
            self.state_hash = (self.state_hash ^ u64::from_le_bytes(v) ^ g).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17);
        }
        let cm = &mut self.cpus[c];
        cm.last_store = now;
        if rel { cm.last_rel = now; }
        for (i, d) in self.cpus.iter_mut().enumerate() {
            if i != c { if let Some(r) = &mut d.resv { if r.line >= addr >> 4 && r.line <= (addr + size as u64 - 1) >> 4 { r.ok = false; } } }
        }
        if self.nmca() {
            for d in 0..self.cpus.len() {
                if self.wr.iter().filter(|w| w.prop[d] == NEVER).count() > 8 {
                    let i = self.wr.iter().position(|w| w.prop[d] == NEVER).unwrap();
                    self.propagate(i, d);
                }
            }
        }
        if !self.bools.is_empty() {
            for k in 0..self.bools.len() {
                let b = self.bools[k];
                if b >= addr && b < addr + size as u64 {
                    let v = val[(b - addr) as usize];
                    if v > 1 { self.viol.get_or_insert(format!("bool: byte {v:#x} stored into a boolean atomic at {b:#x}")); }
                }
            }
        }
    }

    // ---------------------------------------------------------------- stores
    fn check_write(&mut self, addr: u64, size: u64, atomic: Option<(&[u8], &[u8])>) {
        if !self.in_obj(addr) || size == 1 && self.cpus[self.cur].also.contains(&addr) { return; }
        if let Some(f) = self.obj_access_guard { if !f(self, addr) { self.viol.get_or_insert(format!("critical section: object write at {addr:#x} outside the critical section")); } }
        if !self.isolate { return; }
        let (lo, hi) = self.cpus[self.cur].allow;
        if addr >= lo && addr + size <= hi { return; }
        match atomic {
            Some((old, new)) => {
                for i in 0..size {
                    let a = addr + i;
                    if (a < lo || a >= hi) && old[i as usize] != new[i as usize] {
                        self.viol.get_or_insert(format!("isolation: atomic write at {a:#x} changes a byte outside the operation's atomic [{lo:#x},{hi:#x})"));
                        return;
                    }
                }
                let w = (hi - lo).max(4);
                if addr < lo / w * w || addr + size > (hi + w - 1) / w * w {
                    self.viol.get_or_insert(format!("isolation: atomic write of {size} bytes at {addr:#x} reaches outside the word of the operation's atomic [{lo:#x},{hi:#x})"));
                }
            }
            None => { self.viol.get_or_insert(format!("isolation: plain write of {size} bytes at {addr:#x} outside the operation's atomic [{lo:#x},{hi:#x})")); }
        }
    }
    pub fn store(&mut self, addr: u64, size: u32, v: u128, rel: bool, tear: bool) -> Result<(), Trap> {
        let s = self.cpus[self.cur].stack;
        if addr >= s.0 && addr.saturating_add(size as u64) <= s.1 {
            let o = (addr - self.base) as usize;
            if !self.be && size == 8 { self.ram[o..o + 8].copy_from_slice(&(v as u64).to_le_bytes()); return Ok(()); }
            let b = self.to_bytes(v, size as usize);
            self.ram[o..o + size as usize].copy_from_slice(&b[..size as usize]);
            return Ok(());
        }
        if self.off(addr, size as u64).is_none() || self.is_stack(addr) || (addr >= self.text.0 && addr < self.text.1) {
            return Err(Trap::Fault(addr, "store outside writable memory"));
        }
        let crosses = (addr >> 3) != (addr + size as u64 - 1) >> 3;
        if crosses && (tear || addr & (size as u64 - 1) != 0 || size < 16) {
            let b = self.to_bytes(v, size as usize);
            let mut pieces = vec![];
            let mut a = addr;
            while a < addr + size as u64 {
                let e = ((a | 7) + 1).min(addr + size as u64);
                pieces.push((a, (e - a) as u32, self.asm_val(&b[(a - addr) as usize..(e - addr) as usize])));
                a = e;
            }
            let swap = match self.gate_meta(2, 0.3)? { Some(x) => x != 0, None => false };
            if swap { pieces.reverse(); }
            for (a, s, v) in pieces { self.store(a, s, v, rel, false)?; }
            self.stats.torn += 1;
            return Ok(());
        }
        if self.gate()?.is_some() { return Ok(()); }
        self.check_write(addr, size as u64, None);
        if let Some(t) = &mut self.trace { t.push(format!("  cpu{} pc={:#x} store{} [{:#x}] <- {:#x}{}", self.cur, self.ifetch, size * 8, addr, v, if rel { " rel" } else { "" })); }
        let b = self.to_bytes(v, size as usize);
        let c = self.cur;
        match self.model {
            Model::Sc => self.commit(c, addr, size, &b, rel, (0, 0)),
            _ => {
                let e = Ent { addr, size: size as u8, val: b, epoch: self.cpus[c].epoch, bar: self.cpus[c].bar, rel: rel && self.model == Model::Weak, owned: false, born: self.now };
                self.cpus[c].buf.push(e);
                if self.fair { self.drain_all(c); } else if self.cpus[c].buf.len() > self.fp.cap.max(1) { self.force(c, 0); }
            }
        }
        self.done(0);
        Ok(())
    }

    // ---------------------------------------------------------------- atomics
    /// Single-instruction atomic read-modify-write. `f` maps old to Some(new), or None (no store).
    pub fn rmw(&mut self, addr: u64, size: u32, acq: bool, rel: bool, f: &mut dyn FnMut(u128) -> Option<u128>) -> Result<u128, Trap> {
        if self.private(addr, size as u64) && !(addr >= self.text.0 && addr < self.text.1) {
            // x86: a locked instruction is a full barrier wherever it points
            if self.model == Model::Tso { self.flush()?; }
            let old = self.peek(addr, size);
            if let Some(n) = f(old) { self.poke_private(addr, size, n); }
            return Ok(old);
        }
        if self.off(addr, size as u64).is_none() || self.is_stack(addr) || (addr >= self.text.0 && addr < self.text.1) {
            return Err(Trap::Fault(addr, "atomic access outside writable memory"));
        }
        if addr & (size as u64 - 1) != 0 { return Err(Trap::Fault(addr, "misaligned atomic access")); }
        if let Some(v) = self.gate()? { return Ok(v); }
        self.check_read(addr, size as u64);
        let c = self.cur;
        match self.model {
            Model::Sc => {}
            Model::Tso => self.drain_all(c),
            Model::Weak => {
                if acq { while let Some(i) = self.cpus[c].buf.iter().rposition(|e| e.rel) { self.force(c, i); } }
                self.drain_overlap(c, addr, size as u64, true);
                self.drain_foreign_owned(c, addr, size as u64);
            }
        }
        let old = self.peek(addr, size);
        let new = f(old);
        // the release ordering belongs to the write: a failed compare-and-swap has none
        if new.is_some() && self.model == Model::Weak { if rel { self.drain_all(c); } else { self.drain_older(c); } }
        if let Some(n) = new {
            let (ob, nb) = (self.to_bytes(old, size as usize), self.to_bytes(n, size as usize));
            self.check_write(addr, size as u64, Some((&ob, &nb)));
        }
        if let Some(t) = &mut self.trace { t.push(format!("  cpu{} pc={:#x} rmw{} [{:#x}] {:#x} -> {}{}{}", self.cur, self.ifetch, size * 8, addr, old, match new { Some(n) => format!("{n:#x}"), None => "unchanged".into() }, if acq { " acq" } else { "" }, if rel { " rel" } else { "" })); }
        if self.model == Model::Weak {
            let (g0, g1) = (addr >> 3, (addr + size as u64 - 1) >> 3);
            let mut t = self.cpus[c].vr_bar;
            if acq { t = t.max(self.cpus[c].last_rel); }
            for &(g, x) in &self.cpus[c].coh { if g >= g0 && g <= g1 { t = t.max(x); } }
            for g in g0..=g1 { t = t.max(self.last_time(g)); }
            let cm = &mut self.cpus[c];
            cm.load_max = cm.load_max.max(t);
            if acq { cm.vr_bar = cm.vr_bar.max(t); }
            for g in g0..=g1 { set_coh(&mut cm.coh, g, t); }
        }
        if let Some(n) = new {
            let b = self.to_bytes(n, size as usize);
            if self.model == Model::Weak && !(self.amo_single && acq) && self.maybe_own(c, addr, size, &b, rel) {
            } else {
                let k = (self.cpus[c].epoch, self.cpus[c].bar);
                self.commit(c, addr, size, &b, rel, k);
                if self.model == Model::Weak && self.amo_single && acq { let n = self.now; let cm = &mut self.cpus[c]; cm.vr_bar = cm.vr_bar.max(n); }
            }
            if self.model == Model::Weak && acq && rel {
                // Armv8: an acquire-release AMO orders everything before it with everything after it
                let cm = &mut self.cpus[c];
                cm.vr_bar = cm.vr_bar.max(cm.last_store).max(cm.load_max);
                cm.epoch += 1;
            }
        }
        Ok(self.done(old))
    }
    /// Decide whether an atomic's write stays in the buffer (line owned) so that later accesses can pass it.
    fn maybe_own(&mut self, c: usize, addr: u64, size: u32, b: &[u8; 16], rel: bool) -> bool {
        if self.fair { return false; }
        // only when nothing in the buffer has to precede it, so that it can always be forced out alone
        let ep = self.cpus[c].epoch;
        if rel && !self.cpus[c].buf.is_empty() { return false; }
        if self.cpus[c].buf.iter().any(|e| e.epoch < ep || e.rel || (e.addr >> 4) == (addr >> 4)) { return false; }
        if self.fp.p_owned <= 0.0 && self.ch.forced.is_none() { self.ch.coin(0.0); return false; }
        let p = self.fp.p_owned;
        if !self.ch.coin(p) { return false; }
        self.stats.owned += 1;
        let e = Ent { addr, size: size as u8, val: *b, epoch: ep, bar: self.cpus[c].bar, rel, owned: true, born: self.now };
        self.cpus[c].buf.push(e);
        true
    }
    /// Store-conditional. Returns true on success.
    pub fn sc(&mut self, addr: u64, size: u32, v: u128, rel: bool) -> Result<bool, Trap> {
        if self.private(addr, size as u64) {
            let r = self.cpus[self.cur].resv.take();
            let _ = r;
            self.poke_private(addr, size, v);
            return Ok(true);
        }
        if self.off(addr, size as u64).is_none() || self.is_stack(addr) { return Err(Trap::Fault(addr, "store-conditional outside writable memory")); }
        if addr & (size as u64 - 1) != 0 { return Err(Trap::Fault(addr, "misaligned store-conditional")); }
        if let Some(v) = self.gate()? { return Ok(v != 0); }
        let c = self.cur;
        if self.model != Model::Sc {
            if rel || self.model == Model::Tso { self.drain_all(c); } else { self.drain_older(c); }
            self.drain_overlap(c, addr, size as u64, true);
            self.drain_foreign_owned(c, addr, size as u64);
        }
        let r = self.cpus[c].resv.take();
        let mut ok = matches!(r, Some(Resv { line, ok: true }) if line == addr >> 4);
        if ok && !self.fair {
            let p = self.fp.p_scfail;
            if self.ch.coin(p) { self.stats.scfail += 1; ok = false; }
        }
        if ok {
            let old = self.peek(addr, size);
            let (ob, b) = (self.to_bytes(old, size as usize), self.to_bytes(v, size as usize));
            self.check_write(addr, size as u64, Some((&ob, &b)));
            if self.model == Model::Weak && self.maybe_own(c, addr, size, &b, rel) {} else { let k = (self.cpus[c].epoch, self.cpus[c].bar); self.commit(c, addr, size, &b, rel, k); }
        }
        if let Some(t) = &mut self.trace { t.push(format!("  cpu{} pc={:#x} sc{} [{:#x}] <- {:#x} {}{}", self.cur, self.ifetch, size * 8, addr, v, if ok { "ok" } else { "FAIL" }, if rel { " rel" } else { "" })); }
        self.done(ok as u128);
        Ok(ok)
    }
    /// When the CPU's latest shared load was satisfied.
    pub fn load_time(&self) -> u64 { self.cpus[self.cur].last_t }
    /// Later loads are satisfied no earlier than `t`.
    pub fn raise_bar(&mut self, t: u64) {
        self.stats.fences += 1;
        let c = self.cur;
        let cm = &mut self.cpus[c];
        cm.vr_bar = cm.vr_bar.max(t);
        let pc = self.ifetch;
        if let Some(x) = &mut self.trace { x.push(format!("  cpu{c} pc={pc:#x} instruction barrier")); }
    }
    pub fn clear_resv(&mut self) { let c = self.cur; self.cpus[c].resv = None; }
    pub fn clrex(&mut self) { self.clear_resv(); }

    /// Emptying a non-empty store buffer is something others see: a step of its own, not part of the access before it.
    fn flush(&mut self) -> Result<(), Trap> {
        let c = self.cur;
        let m = &self.cpus[c];
        if m.pos == m.log.len() && m.buf.is_empty() { return Ok(()); }
        if self.gate()?.is_none() { self.drain_all(c); self.done(0); }
        Ok(())
    }
    /// fence with predecessor / successor sets.
    pub fn fence(&mut self, pr: bool, pw: bool, sr: bool, sw: bool) -> Result<(), Trap> {
        if self.model == Model::Tso && pw && sr { self.flush()?; }
        self.fence_now(pr, pw, sr, sw)
    }
    pub fn fence_now(&mut self, pr: bool, pw: bool, sr: bool, sw: bool) -> Result<(), Trap> {
        self.stats.fences += 1;
        let c = self.cur;
        match self.model {
            Model::Sc => {}
            Model::Tso => { if pw && sr { self.drain_all(c); } }
            Model::Weak => {
                if pw && sr {
                    self.drain_all(c);
                    if self.nmca() { self.publish(c); let n = self.now; self.cpus[c].vr_bar = n; }
                    let cm = &mut self.cpus[c];
                    cm.vr_bar = cm.vr_bar.max(cm.last_store);
                }
                if pw && sw { let n = self.now; let cm = &mut self.cpus[c]; cm.epoch += 1; cm.bar = n; }
                if pr && sr { let cm = &mut self.cpus[c]; cm.vr_bar = cm.vr_bar.max(cm.load_max); }
            }
        }
        if let Some(t) = &mut self.trace { t.push(format!("  cpu{} pc={:#x} fence {}{},{}{}", c, self.ifetch, if pr { "r" } else { "" }, if pw { "w" } else { "" }, if sr { "r" } else { "" }, if sw { "w" } else { "" })); }
        Ok(())
    }
    pub fn pause(&mut self) { let c = self.cur; self.cpus[c].paused = true; }
    /// Instruction bytes.
    #[inline]
    pub fn fetch(&self, pc: u64, n: usize) -> Option<&[u8]> {
        let o = pc.wrapping_sub(self.base) as usize;
        if pc >= self.text.0 && pc < self.text.1 { self.ram.get(o..(o + n).min(self.ram.len())) } else { None }
    }
}
fn set_coh(v: &mut Vec<(u64, u64)>, g: u64, t: u64) {
    for x in v.iter_mut() { if x.0 == g { x.1 = x.1.max(t); return; } }
    v.push((g, t));
}
