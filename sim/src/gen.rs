//! Random programs.
use crate::cpu::CpuFeat;
use crate::engine::*;
use crate::mem::{FaultP, Model};
use crate::ops::*;
use crate::util::{Rng, J};

pub fn value_pool(t: Ty, bits: u32, r: &mut Rng) -> Vec<u128> {
    let mk = mask_bits(bits);
    let mut v: Vec<u128>;
    if t == Ty::F32 {
        v = vec![0, 0x8000_0000, 0x3f80_0000, 0xbfc0_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0001, 0x7f80_0001, 1, 0x7f7f_ffff, 0x4b80_0000, 0xffc1_2345, 0x3e99_999a, 0x80000001];
        for _ in 0..2 { v.push(r.next() as u128 & mk); }
    } else if t == Ty::F64 {
        v = vec![0, 1 << 63, 0x3ff0 << 48, 0xbff8 << 48, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48 | 5, 0x7ff0 << 48 | 1, 1, 0x7fef_ffff_ffff_ffff, 0x4340 << 48, 0xfff9_1234_5678_9abc, 0x3fb9_9999_9999_999a];
        for _ in 0..2 { v.push(r.next() as u128 & mk); }
    } else if t.is_float() {
        let (m, k) = (t.frac(), bits - 1);
        let (inf, one) = (mask_bits(k) ^ mask_bits(m), mask_bits(k - 1) ^ mask_bits(m));
        v = vec![0, 1 << k, one, 1 << k | one | 1 << (m - 1), inf, inf | 1 << k, inf | 1 << (m - 1) | 5, inf | 1, 1, inf - 1, one + ((m as u128 + 1) << m), inf | 1 << k | 1 << (m - 1) | 0x123, one - (3 << m) | mask_bits(m) / 3, 1 << k | 1];
        for _ in 0..2 { v.push(r.u128() & mk); }
        // close to one another
        for _ in 0..2 { v.push((r.u128() & (mask_bits(m) | 1 << k)) | (one + ((r.below(5) as u128) << m))); }
    } else if t == Ty::Bool {
        return vec![0, 1];
    } else {
        v = vec![0, 1, mk, 1 << (bits - 1), mk >> 1, 2];
        if bits >= 16 {
            let h = bits / 2;
            v.extend([mask_bits(h), 1 << h, mk << h & mk, (1 << h) - 1 | 1 << (bits - 1), mask_bits(h - 1), 1u128 << (h - 1)]);
        }
        for _ in 0..4 { v.push(r.u128() & mk); }
        for _ in 0..2 { let b = r.below(bits as u64); v.push(1u128 << b); }
        let x = r.u128() & mk;
        v.push(x);
        v.push(x.wrapping_add(1) & mk);
        v.push(x ^ 1u128 << r.below(bits as u64));
    }
    // a small working set makes values collide, which compare-and-exchange needs
    let n = 3 + r.usize(3);
    let mut o = vec![];
    for _ in 0..n { o.push(*r.pick(&v)); }
    o
}
#[derive(Clone)]
pub struct GenOpt {
    pub tys: Vec<Ty>,
    pub ops: Option<Vec<Op>>,
    pub nth: (usize, usize),
    pub nop: (usize, usize),
    pub nobj: (usize, usize),
    /// Objects share words (adjacent bytes).
    pub pack: bool,
    /// all objects have the same type
    pub same_ty: bool,
    pub p_nested: f64,
    pub p_clopanic: f64,
    pub p_badord: f64,
    pub p_rmw_same: f64,
    pub model: Model,
    pub stalls: bool,
}
impl GenOpt {
    pub fn new(tys: &[Ty]) -> GenOpt { GenOpt { tys: tys.to_vec(), ops: None, nth: (2, 3), nop: (1, 3), nobj: (1, 1), pack: false, same_ty: true, p_nested: 0.15, p_clopanic: 0.08, p_badord: 0.0, p_rmw_same: 0.25, model: Model::Sc, stalls: true } }
}
/// Memory need not be multi-copy-atomic: Power, and Arm before version 8.
pub fn may_split(c: &crate::guest::Cfg) -> bool { c.arch == crate::guest::Arch::Ppc64 || c.arch == crate::guest::Arch::Arm && c.name.starts_with("v") && !c.name.contains("v8") }
pub fn swarm(r: &mut Rng, model: Model) -> FaultP {
    let lv = [0.0, 0.02, 0.1, 0.3, 0.6];
    FaultP {
        p_drain: [0.05, 0.15, 0.35, 0.6][r.usize(4)],
        p_stale: if model == Model::Weak { lv[r.usize(5)] } else { 0.0 },
        p_scfail: lv[r.usize(4)],
        p_owned: if model == Model::Weak { lv[r.usize(5)] } else { 0.0 },
        cap: 1 + r.usize(6),
        nmca: false,
    }
}
pub fn strategy(r: &mut Rng, n: usize) -> Strat {
    match r.below(10) {
        0..=5 => Strat::Rand([30, 100, 250, 500, 800][r.usize(5)]),
        _ => {
            let mut prio: Vec<u32> = (1..=n as u32).map(|x| x + 1000).collect();
            for i in (1..n).rev() { let j = r.usize(i + 1); prio.swap(i, j); }
            let d = r.usize(4);
            let mut change: Vec<u64> = (0..d).map(|_| { let k = [20u64, 60, 200][r.usize(3)]; r.below(k) }).collect();
            change.sort();
            Strat::Pct { prio, change }
        }
    }
}
pub fn gen_call(w: &World, r: &mut Rng, ty: Ty, obj: usize, ops: &[Op], pool: &[u128], o: &GenOpt, depth: u32, others: &[(Ty, usize, Vec<u128>)]) -> Call {
    let bits = w.sem.bits(ty);
    let mut c;
    let mut guard = 0;
    loop {
        let op = *r.pick(ops);
        c = Call::new(ty, op, obj);
        if ty == Ty::Ptr && ptr_sized(op) { c.es = [1u8, 1, 0, 2, 3, 8, 16][r.usize(7)]; }
        if w.has(&c) { break; }
        guard += 1;
        if guard > 300 { c = Call::new(ty, Op::Load, obj); break; }
    }
    c.a = *r.pick(pool);
    c.b = *r.pick(pool);
    if r.chance(0.1) { c.a = r.u128() & mask_bits(bits); }
    if c.op.bit_op() { c.a = match r.below(4) { 0 => r.below(bits as u64) as u128, 1 => bits as u128 - 1, 2 => (r.next() as u32) as u128, _ => r.below(4) as u128 }; }
    if ty == Ty::Ptr && matches!(c.op, Op::FetchPtrAdd | Op::FetchPtrSub) && r.chance(0.6) { c.a = r.below(7) as u128; }
    let (o1, o2) = if o.p_badord > 0.0 && r.chance(o.p_badord) { (r.below(5) as u8, r.below(5) as u8) } else { rand_ord(r, c.op) };
    c.o1 = o1;
    c.o2 = o2;
    c.fmt = r.below(7) as u8;
    if ty == Ty::Ptr && c.op == Op::Debug && r.chance(0.4) { c.fmt = 7 + r.below(2) as u8; }
    if matches!(c.op, Op::Debug | Op::Ser) && r.chance(0.15) {
        let nested = if depth == 0 && r.chance(0.6) { let (t2, o2, p2) = &others[r.usize(others.len())]; Some(Box::new(gen_call(w, r, *t2, *o2, &ops_for(*t2), p2, o, 1, others))) } else { None };
        c.clo = Some(Clo { ret: CloRet::Decline, panic_at: if nested.is_none() { 1 + r.below(2) as u32 } else { 0 }, nested });
    }
    if c.op == Op::FetchUpdate {
        let ret = match r.below(8) {
            0 => CloRet::Decline,
            1 => CloRet::DeclineIf(*r.pick(pool), *r.pick(pool)),
            2 | 3 => CloRet::Const(*r.pick(pool)),
            4 | 5 if !ty.is_float() => CloRet::Add(*r.pick(pool)),
            _ => CloRet::Xor(*r.pick(pool)),
        };
        let nested = if depth == 0 && r.chance(o.p_nested) {
            let k = r.usize(others.len());
            let (t2, o2, p2) = &others[k];
            let ops2: Vec<Op> = ops_for(*t2);
            Some(Box::new(gen_call(w, r, *t2, *o2, &ops2, p2, o, 1, others)))
        } else { None };
        c.clo = Some(Clo { ret, panic_at: if r.chance(o.p_clopanic) { 1 + r.below(2) as u32 } else { 0 }, nested });
        if c.clo.as_ref().unwrap().nested.as_ref().is_some_and(|n| n.op == Op::FetchUpdate && n.clo.is_none()) { c.clo = None; }
    }
    c
}
pub fn place(w: &World, r: &mut Rng, tys: &[Ty], pack: bool) -> Vec<u64> {
    let mut offs: Vec<u64> = vec![];
    let mut next = 0x40 * r.below(40);
    if pack {
        for t in tys {
            let s = w.size(*t) as u64;
            next = (next + s - 1) / s * s;
            offs.push(next);
            next += s;
        }
    } else {
        for t in tys {
            let s = w.size(*t) as u64;
            loop {
                let c = if r.chance(0.5) && next + 10 * s < w.mem.lay.obj_len { (next + s - 1) / s * s + s * r.below(8) } else { s * r.below(w.mem.lay.obj_len / s - 2) };
                if offs.iter().zip(tys).all(|(o, t2)| c + s <= *o || *o + w.size(*t2) as u64 <= c) { offs.push(c); next = c + s; break; }
            }
        }
    }
    offs
}
pub fn gen_prog(w: &World, r: &mut Rng, o: &GenOpt) -> Prog {
    let mut p = Prog::new();
    p.feat = w.feat.clone();
    let n = o.nth.0 + r.usize(o.nth.1 - o.nth.0 + 1);
    let nobj = o.nobj.0 + r.usize(o.nobj.1 - o.nobj.0 + 1);
    // where the unstable float types are built in, they are part of every type
    let more: &[Ty] = if o.tys.len() == ALL_TY.len() { &[Ty::F16, Ty::F128, Ty::F16, Ty::F128] } else { &[] };
    let avail: Vec<Ty> = o.tys.iter().chain(more).copied().filter(|t| w.has_ty(*t)).collect();
    let t0 = *r.pick(&avail);
    let tys: Vec<Ty> = (0..nobj).map(|_| if o.same_ty { t0 } else { *r.pick(&avail) }).collect();
    let offs = place(w, r, &tys, o.pack);
    let pools: Vec<Vec<u128>> = tys.iter().map(|t| value_pool(*t, w.sem.bits(*t), r)).collect();
    for i in 0..nobj { let v = *r.pick(&pools[i]); p.objs.push(Obj { ty: tys[i], off: offs[i], init: v }); }
    let others: Vec<(Ty, usize, Vec<u128>)> = (0..nobj).map(|i| (tys[i], i, pools[i].clone())).collect();
    let lists: Vec<Vec<Op>> = tys.iter().map(|t| match &o.ops { Some(l) => { let a = ops_for(*t); let v: Vec<Op> = l.iter().copied().filter(|x| a.contains(x) || matches!(x, Op::Debug | Op::Ser)).collect(); if v.is_empty() { a } else { v } } None => ops_for(*t) }).collect();
    // swarm: sometimes restrict each program to a few operations
    let lists: Vec<Vec<Op>> = lists.into_iter().map(|l| if r.chance(0.5) { let k = 1 + r.usize(4); let mut v: Vec<Op> = (0..k).map(|_| *r.pick(&l)).collect(); if r.chance(0.6) { v.push(Op::Load); } v } else { l }).collect();
    for _ in 0..n {
        let k = o.nop.0 + r.usize(o.nop.1 - o.nop.0 + 1);
        let mut t = vec![];
        for _ in 0..k { let i = r.usize(nobj); t.push(gen_call(w, r, tys[i], i, &lists[i], &pools[i], o, 0, &others)); }
        p.threads.push(t);
    }
    p.model = o.model;
    p.fp = swarm(r, o.model);
    p.fp.nmca = o.model == Model::Weak && may_split(&w.img.cfg) && r.chance(0.5);
    p.strat = strategy(r, n);
    if o.stalls && r.chance(0.2) { p.stalls.push((r.usize(n), r.below(12), 20 + r.below(200))); }
    p
}

/// One CPU's operations are interfered with at every single step, for many rounds; the other CPUs
/// repeat operations that change the value, or that store the same value again.
pub fn starve_prog(w: &World, r: &mut Rng, o: &GenOpt) -> Prog {
    let mut p = gen_prog(w, r, &GenOpt { nth: (2, 3), nop: (1, 2), nobj: (1, 1), p_nested: 0.0, stalls: false, ..o.clone() });
    let n = p.threads.len();
    let (victim, ty, init) = (r.usize(n), p.objs[0].ty, p.objs[0].init);
    let bits = w.sem.bits(ty);
    let pool = value_pool(ty, bits, r);
    let mk = |op: Op, a: u128, r: &mut Rng| { let mut c = Call::new(ty, op, 0); c.a = a & mask_bits(bits); let (x, y) = rand_ord(r, op); c.o1 = x; c.o2 = y; if ty == Ty::Ptr && ptr_sized(op) { c.es = 1; } c };
    let same = r.chance(0.2);
    for c in p.threads[victim].iter_mut() {
        if let Some(cl) = &mut c.clo { if cl.ret == CloRet::Decline { cl.ret = CloRet::Xor(*r.pick(&pool)); } if let CloRet::DeclineIf(x, _) = &mut cl.ret { if r.chance(0.7) { *x = r.u128() & mask_bits(bits); } } }
        if same && c.op.is_cas() { c.a = init; }
    }
    for i in 0..n {
        if i == victim { continue; }
        p.loops |= 1 << i;
        let v1 = *r.pick(&pool);
        let v2 = pool.iter().copied().find(|x| *x != v1).unwrap_or(v1 ^ 1);
        let v: Vec<Call> = if same { vec![mk(Op::Store, init, r)] } else {
            match r.below(4) {
                0 => vec![mk(Op::Store, v1, r), mk(Op::Store, v2, r)],
                1 => vec![mk(Op::Swap, v1, r), mk(Op::Store, v2, r)],
                2 if ty.is_int() => vec![mk(Op::FetchAdd, r.u128() | 1, r)],
                2 if ty == Ty::Ptr => vec![mk(Op::FetchByteAdd, r.below(255) as u128 + 1, r)],
                2 if ty == Ty::Bool => vec![mk(Op::FetchNot, 0, r)],
                2 => vec![mk(Op::FetchNeg, 0, r)],
                _ if !ty.is_float() => vec![mk(Op::FetchXor, (1u128 << r.below(bits as u64)).max(1), r)],
                _ => vec![mk(Op::Store, v1, r), mk(Op::FetchNeg, 0, r)],
            }
        };
        p.threads[i] = if v.iter().all(|c| w.has(c)) { v } else { vec![mk(Op::Store, v1, r), mk(Op::Store, v2, r)] };
    }
    let rounds = match r.below(20) { 0..=8 => 4 + r.below(16), 9..=15 => 20 + r.below(60), 16..=18 => 80 + r.below(250), _ => 300 + r.below(900) } as u32;
    p.strat = Strat::Starve { victim, rounds, patience: [60, 60, 150, 400][r.usize(4)], slack: [0, 0, 0, 50, 300][r.usize(5)] };
    // or no other CPU at all, and store-conditionals that keep failing for no reason
    if r.chance(0.15) { p.fp.p_scfail = [0.9, 0.97, 0.99][r.usize(3)]; }
    p.fair_after = 60_000;
    p.max_slices = 90_000;
    p
}

/// A program whose CPUs take interrupts; the handlers run operations too.
pub fn irq_prog(w: &mut World, r: &mut Rng, o: &GenOpt, max: usize) -> Prog {
    let mut p = gen_prog(w, r, o);
    let n = p.threads.len();
    if r.chance(0.15) { p.irq_off = r.below(1 << n) as u32; }
    // how long the program runs undisturbed, so that interrupts can land anywhere in it
    let len: Vec<u64> = w.run(&p, 1, None).per_cpu.iter().map(|x| x.0).collect();
    let others: Vec<(Ty, usize, Vec<u128>)> = p.objs.iter().enumerate().map(|(i, ob)| (ob.ty, i, value_pool(ob.ty, w.sem.bits(ob.ty), r))).collect();
    for _ in 0..1 + r.usize(max) {
        let c = r.usize(n);
        let mut calls = vec![];
        for _ in 0..1 + r.usize(2) {
            let (t, i, pool) = &others[r.usize(others.len())];
            // share values with the interrupted code so that compare-and-exchange meets itself
            let mut pool = pool.clone();
            for th in &p.threads { for cl in th { if cl.obj == *i { pool.push(cl.a); } } }
            let ops = match &o.ops { Some(l) => { let a = ops_for(*t); let v: Vec<Op> = l.iter().copied().filter(|x| a.contains(x)).collect(); if v.is_empty() { a } else { v } } None => ops_for(*t) };
            calls.push(gen_call(w, r, *t, *i, &ops, &pool, o, 0, &others));
        }
        let m = *len.get(c).unwrap_or(&1);
        p.irqs.push(Irq { cpu: c, at: r.below(m + m / 4 + 2), calls, nest: r.chance(0.3) });
    }
    p
}
pub fn prog_to_j(p: &Prog) -> J {
    let f = &p.feat;
    let mut j = J::obj();
    j.put("objs", p.objs.iter().map(|o| J::obj().set("ty", o.ty.name()).set("off", o.off).set("init", o.init)).collect::<Vec<_>>());
    j.put("threads", J::Arr(p.threads.iter().map(|t| J::Arr(t.iter().map(|c| c.to_j()).collect())).collect()));
    j.put("pre", p.pre.iter().map(|c| c.to_j()).collect::<Vec<_>>());
    j.put("post", p.post.iter().map(|c| c.to_j()).collect::<Vec<_>>());
    j.put("loops", p.loops as u64);
    j.put("freeze", J::Arr(p.freeze.iter().map(|x| J::Arr(vec![x.0.into(), x.1.into()])).collect()));
    j.put("stalls", J::Arr(p.stalls.iter().map(|x| J::Arr(vec![x.0.into(), x.1.into(), x.2.into()])).collect()));
    j.put("irqs", J::Arr(p.irqs.iter().map(|q| J::obj().set("cpu", q.cpu).set("at", q.at).set("nest", q.nest).set("calls", q.calls.iter().map(|c| c.to_j()).collect::<Vec<_>>())).collect()));
    j.put("model", match p.model { Model::Sc => "sc", Model::Tso => "tso", Model::Weak => "weak" });
    j.put("fp", J::Arr(vec![p.fp.p_drain.into(), p.fp.p_stale.into(), p.fp.p_scfail.into(), p.fp.p_owned.into(), p.fp.cap.into(), (p.fp.nmca as usize).into()]));
    j.put("strat", match &p.strat { Strat::Rand(x) => J::obj().set("rand", *x as u64), Strat::Starve { victim, rounds, patience, slack } => J::obj().set("starve", vec![*victim as u64, *rounds as u64, *patience as u64, *slack as u64]), Strat::Pct { prio, change } => J::obj().set("prio", prio.iter().map(|x| *x as u64).collect::<Vec<_>>()).set("change", change.clone()) });
    j.put("feat", feat_to_j(f));
    j.put("irq_off", p.irq_off as u64);
    j.put("sink_fail", p.sink_fail as u64);
    j.put("pokes", J::Arr(p.pokes.iter().map(|x| J::obj().set("sym", x.0.as_str()).set("off", x.1).set("size", x.2 as u64).set("val", x.3)).collect()));
    if !p.jumps.is_empty() { j.put("jumps", J::Arr(p.jumps.iter().map(|x| J::Arr([x.at, x.lo, x.size as u64, x.rem, x.delta, x.n, x.hi, x.hi_add].iter().map(|v| J::from(*v)).collect())).collect())); }
    j.put("max_slices", p.max_slices);
    j.put("fair_after", p.fair_after);
    j.put("tag", p.tag.as_str());
    j
}
pub fn prog_from_j(j: &J) -> Option<Prog> {
    let mut p = Prog::new();
    for o in j.get("objs").arr() { p.objs.push(Obj { ty: Ty::from_name(o.get("ty").str())?, off: o.get("off").int() as u64, init: o.get("init").u128() }); }
    for t in j.get("threads").arr() { p.threads.push(t.arr().iter().map(Call::from_j).collect::<Option<Vec<_>>>()?); }
    p.pre = j.get("pre").arr().iter().map(Call::from_j).collect::<Option<Vec<_>>>()?;
    p.post = j.get("post").arr().iter().map(Call::from_j).collect::<Option<Vec<_>>>()?;
    p.loops = j.get("loops").int() as u32;
    for x in j.get("freeze").arr() { p.freeze.push((x.arr()[0].int() as usize, x.arr()[1].int() as u64)); }
    for x in j.get("stalls").arr() { p.stalls.push((x.arr()[0].int() as usize, x.arr()[1].int() as u64, x.arr()[2].int() as u64)); }
    for q in j.get("irqs").arr() { p.irqs.push(Irq { cpu: q.get("cpu").int() as usize, at: q.get("at").int() as u64, nest: q.get("nest").bool(), calls: q.get("calls").arr().iter().map(Call::from_j).collect::<Option<Vec<_>>>()? }); }
    p.model = match j.get("model").str() { "tso" => Model::Tso, "weak" => Model::Weak, _ => Model::Sc };
    let f = j.get("fp").arr();
    if f.len() >= 5 { p.fp = FaultP { nmca: f.get(5).is_some_and(|x| x.int() != 0), p_drain: f[0].num(), p_stale: f[1].num(), p_scfail: f[2].num(), p_owned: f[3].num(), cap: f[4].int() as usize }; }
    p.strat = match j.get("strat").get("rand") { J::Num(x) => Strat::Rand(*x as u32), _ if j.get("strat").get("starve").arr().len() == 4 => { let v: Vec<u32> = j.get("strat").get("starve").arr().iter().map(|x| x.int() as u32).collect(); Strat::Starve { victim: v[0] as usize, rounds: v[1], patience: v[2], slack: v[3] } } _ => Strat::Pct { prio: j.get("strat").get("prio").arr().iter().map(|x| x.int() as u32).collect(), change: j.get("strat").get("change").arr().iter().map(|x| x.int() as u64).collect() } };
    p.feat = feat_from_j(j.get("feat"));
    p.irq_off = j.get("irq_off").int() as u32;
    p.sink_fail = j.get("sink_fail").int() as u32;
    for x in j.get("pokes").arr() { p.pokes.push((x.get("sym").str().into(), x.get("off").int() as u64, x.get("size").int() as u32, x.get("val").u128())); }
    for x in j.get("jumps").arr() { let v: Vec<u64> = x.arr().iter().map(|y| y.u128() as u64).collect(); if v.len() == 8 { p.jumps.push(Jump { at: v[0], lo: v[1], size: v[2] as u32, rem: v[3], delta: v[4], n: v[5], hi: v[6], hi_add: v[7] }); } }
    p.max_slices = j.get("max_slices").int() as u64;
    p.fair_after = j.get("fair_after").int() as u64;
    p.tag = j.get("tag").str().into();
    Some(p)
}
fn feat_to_j(f: &CpuFeat) -> J {
    let x = &f.x86;
    J::obj().set("vendor", String::from_utf8_lossy(&x.vendor).into_owned()).set("max_leaf", x.max_leaf as u64).set("cx16", x.cx16).set("avx", x.avx).set("osxsave", x.osxsave).set("xcr0", x.xcr0).set("vec16", x.vec16_atomic).set("hide", f.x86_hide as u64).set("a64", f.a64.bits()).set("rv", f.rv.bits()).set("s390", f.s390.bits()).set("ppc", f.ppc.bits()).set("msp", f.msp.bits()).set("avr", f.avr.bits()).set("arm", f.arm.bits())
}
fn feat_from_j(j: &J) -> CpuFeat {
    let mut f = CpuFeat::default();
    let v = j.get("vendor").str().as_bytes();
    for i in 0..12 { f.x86.vendor[i] = *v.get(i).unwrap_or(&b' '); }
    f.x86.max_leaf = j.get("max_leaf").int() as u32;
    f.x86.cx16 = j.get("cx16").bool();
    f.x86.avx = j.get("avx").bool();
    f.x86.osxsave = j.get("osxsave").bool();
    f.x86.xcr0 = j.get("xcr0").int() as u64;
    f.x86.vec16_atomic = j.get("vec16").bool();
    f.x86_hide = j.get("hide").int() as u32;
    f.rv = crate::rv::RvFeat::from_bits(j.get("rv").int() as u64);
    f.avr = crate::avr::AvrFeat::from_bits(j.get("avr").int() as u64);
    f.arm = crate::arm::ArmFeat::from_bits(j.get("arm").int() as u64);
    f.s390 = crate::s390::S390Feat::from_bits(j.get("s390").int() as u64);
    f.ppc = crate::ppc::PpcFeat::from_bits(j.get("ppc").int() as u64);
    f.msp = crate::msp430::MspFeat::from_bits(j.get("msp").int() as u64);
    f.a64 = crate::a64::A64Feat::from_bits(j.get("a64").int() as u64);
    f
}
