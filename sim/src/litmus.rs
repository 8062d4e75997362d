//! Memory-model programs and the axiomatic oracle: the history must be explained by some
//! execution (modification orders + reads-from) that the Rust/C++20 memory model allows.
use crate::engine::*;
use crate::gen::*;
use crate::mem::Model;
use crate::ops::*;
use crate::util::Rng;

#[derive(Clone, Debug)]
struct Ev { rec: usize, cpu: usize, obj: usize, w: bool, r: bool, fence: bool, ord: u8 }
const ACQ: [bool; 5] = [false, true, false, true, true];
const REL: [bool; 5] = [false, false, true, true, true];

/// A fused call as the six events it stands for.
fn unfuse(recs: &[Rec]) -> Vec<Rec> {
    let mut v = vec![];
    for x in recs {
        let (Some(f), Some((y0, y1, second)), Out::Done(_)) = (x.call.fuse, &x.sub, &x.out) else { v.push(x.clone()); continue };
        let ev = |call: Call, ret: Ret| Rec { call, out: Out::Done(ret), sub: None, ..x.clone() };
        let byte = |op: Op, obj: usize, a: u8| { let mut c = Call::new(U8, op, obj); c.a = a as u128; c.o1 = 0; c };
        let mut op = x.call.clone();
        op.fuse = None;
        let Out::Done(first) = &x.out else { continue };
        let (put, get) = (|w: u8| ev(byte(Op::Store, f.w, w), Ret { ok: true, ..Ret::default() }), |y: u8| ev(byte(Op::Load, f.r, 0), Ret { val: y as u128, ok: true, text: None }));
        v.extend([put(f.v1), ev(op.clone(), first.clone()), put(f.v2), get(*y0), ev(op, second.clone()), get(*y1)]);
    }
    v
}
/// `Err` when no allowed execution explains the history.
pub fn check(sem: &Sem, p: &Prog, recs: &[Rec], finals: Option<&[u128]>) -> Result<(), String> {
    let many;
    let recs = if recs.iter().any(|x| x.sub.is_some()) { many = unfuse(recs); &many[..] } else { recs };
    let mut ev: Vec<Ev> = vec![];
    for (i, x) in recs.iter().enumerate() {
        let Out::Done(q) = &x.out else {
            if x.out == Out::Pending { return Ok(()); }
            continue;
        };
        let c = &x.call;
        let e = |w: bool, r: bool, o: u8| Ev { rec: i, cpu: x.tid, obj: c.obj, w, r, fence: false, ord: o };
        match c.op {
            Op::Fence => ev.push(Ev { fence: true, obj: usize::MAX, ..e(false, false, c.o1) }),
            Op::CFence | Op::Spin | Op::LockFree | Op::AsPtr => {}
            Op::Cas | Op::CasW | Op::FpCas => if q.ok { ev.push(e(true, true, c.o1)) } else { ev.push(e(false, true, c.o2)) },
            Op::FetchUpdate => if q.ok { ev.push(e(true, true, c.o1)) } else { ev.push(e(false, true, c.o2)) },
            Op::Debug | Op::Ser => ev.push(e(false, true, 0)),
            o if o.is_load() => ev.push(e(false, true, c.o1)),
            o if o.is_store() => ev.push(e(true, false, c.o1)),
            _ => ev.push(e(true, true, c.o1)),
        }
    }
    let n = ev.len();
    if n > 32 { return Ok(()); }
    // recs are in invocation order, so index order restricted to one CPU is program order
    let mut po = vec![0u32; n];
    for a in 0..n { for b in a + 1..n { if ev[a].cpu == ev[b].cpu { po[a] |= 1 << b; } } }
    // per object: candidate (modification order, source of every read)
    let nobj = p.objs.len();
    let mut cands: Vec<Vec<Vec<(usize, i32)>>> = vec![]; // per object: list of assignments (event, position)
    for o in 0..nobj {
        let idx: Vec<usize> = (0..n).filter(|i| ev[*i].obj == o && !ev[*i].fence).collect();
        let ws: Vec<usize> = idx.iter().copied().filter(|i| ev[*i].w).collect();
        let rs: Vec<usize> = idx.iter().copied().filter(|i| !ev[*i].w).collect();
        if ws.len() > 8 { return Ok(()); }
        let mut list: Vec<Vec<(usize, i32)>> = vec![];
        let mut seq: Vec<usize> = vec![];
        let mut vals: Vec<St> = vec![St::Val(p.objs[o].init)];
        let mut over = false;
        fn rec(sem: &Sem, recs: &[Rec], ev: &[Ev], po: &[u32], ws: &[usize], rs: &[usize], used: u32, seq: &mut Vec<usize>, vals: &mut Vec<St>, list: &mut Vec<Vec<(usize, i32)>>, fin: Option<u128>, over: &mut bool) {
            if *over { return; }
            if seq.len() == ws.len() {
                if let (Some(f), St::Val(v)) = (fin, vals[vals.len() - 1]) { if f != v { return; } }
                // place the reads
                let mut acc: Vec<Vec<(usize, i32)>> = vec![seq.iter().enumerate().map(|(k, e)| (*e, k as i32 + 1)).collect()];
                for &r in rs {
                    let x = &recs[ev[r].rec];
                    let Out::Done(q) = &x.out else { return };
                    let mut next = vec![];
                    for a in &acc {
                        for k in 0..vals.len() {
                            if sem.step(&x.call, vals[k], Some(q), &x.clo).is_empty() { continue; }
                            // coherence with the same CPU's other accesses
                            let ok = a.iter().all(|(e, pos)| {
                                let (e, pos) = (*e, *pos);
                                if po[e] >> r & 1 != 0 { pos <= k as i32 } else if po[r] >> e & 1 != 0 { if ev[e].w { (k as i32) < pos } else { k as i32 <= pos } } else { true }
                            });
                            if ok { let mut b = a.clone(); b.push((r, k as i32)); next.push(b); }
                        }
                    }
                    if next.len() > 3000 { *over = true; return; }
                    acc = next;
                }
                list.extend(acc);
                if list.len() > 20_000 { *over = true; }
                return;
            }
            for (k, &e) in ws.iter().enumerate() {
                if used >> k & 1 != 0 { continue; }
                if ws.iter().enumerate().any(|(j, f)| used >> j & 1 == 0 && po[*f] >> e & 1 != 0) { continue; }
                let x = &recs[ev[e].rec];
                let Out::Done(q) = &x.out else { return };
                for s in sem.step(&x.call, vals[vals.len() - 1], Some(q), &x.clo) {
                    seq.push(e);
                    vals.push(s);
                    rec(sem, recs, ev, po, ws, rs, used | 1 << k, seq, vals, list, fin, over);
                    seq.pop();
                    vals.pop();
                }
            }
        }
        rec(sem, recs, &ev, &po, &ws, &rs, 0, &mut seq, &mut vals, &mut list, finals.map(|f| f[o]), &mut over);
        if over { return Ok(()); }
        if list.is_empty() && !idx.is_empty() { return Err(format!("no modification order of x{o} explains the values returned")); }
        if !list.is_empty() { cands.push(list); }
    }
    let total: usize = cands.iter().map(|c| c.len()).fold(1, |a, b| a.saturating_mul(b));
    if total > 60_000 { return Ok(()); }
    let mut pick = vec![0usize; cands.len()];
    let mut why = String::new();
    loop {
        match consistent(&ev, &po, cands.iter().zip(&pick).flat_map(|(c, k)| c[*k].iter().copied())) {
            Ok(()) => return Ok(()),
            Err(m) => if why.is_empty() || m == "happens-before" { why = m.into() },
        }
        let mut i = 0;
        loop {
            if i == pick.len() { return Err(format!("no execution the memory model allows explains the values returned ({why})")); }
            pick[i] += 1;
            if pick[i] < cands[i].len() { break; }
            pick[i] = 0;
            i += 1;
        }
    }
}
type Rel = Vec<u32>;
fn comp(a: &Rel, b: &Rel) -> Rel { a.iter().map(|x| { let (mut x, mut y) = (*x, 0); while x != 0 { let i = x.trailing_zeros(); x &= x - 1; y |= b[i as usize]; } y }).collect() }
fn union(a: &Rel, b: &Rel) -> Rel { a.iter().zip(b).map(|(x, y)| x | y).collect() }
fn refl(a: &Rel) -> Rel { a.iter().enumerate().map(|(i, x)| x | 1 << i).collect() }
fn tc(a: &Rel) -> Rel {
    let mut r = a.clone();
    let n = r.len();
    for k in 0..n { for i in 0..n { if r[i] >> k & 1 != 0 { r[i] |= r[k]; } } }
    r
}
fn irrefl(a: &Rel) -> bool { a.iter().enumerate().all(|(i, x)| x >> i & 1 == 0) }
fn dom(a: &Rel, m: u32) -> Rel { a.iter().enumerate().map(|(i, x)| if m >> i & 1 != 0 { *x } else { 0 }).collect() }
fn rng(a: &Rel, m: u32) -> Rel { a.iter().map(|x| x & m).collect() }

fn consistent(ev: &[Ev], po: &Rel, assign: impl Iterator<Item = (usize, i32)>) -> Result<(), &'static str> {
    let n = ev.len();
    let mut pos = vec![-1i32; n];
    for (e, k) in assign { pos[e] = k; }
    let mut rf = vec![0u32; n];
    let mut mo = vec![0u32; n];
    let mut rb = vec![0u32; n];
    for a in 0..n {
        if ev[a].fence { continue; }
        for b in 0..n {
            if a == b || ev[b].fence || ev[a].obj != ev[b].obj { continue; }
            if ev[a].w && ev[b].w && pos[a] < pos[b] { mo[a] |= 1 << b; }
            let rp = |e: usize| if ev[e].w { pos[e] - 1 } else { pos[e] };
            if ev[a].w && ev[b].r && rp(b) == pos[a] { rf[a] |= 1 << b; }
            if ev[a].r && ev[b].w && rp(a) < pos[b] { rb[a] |= 1 << b; }
        }
    }
    let set = |f: &dyn Fn(&Ev) -> bool| (0..n).filter(|i| f(&ev[*i])).map(|i| 1u32 << i).sum::<u32>();
    let (w, r, f) = (set(&|e| e.w), set(&|e| e.r), set(&|e| e.fence));
    let rmw = w & r;
    let (acq, rel) = (set(&|e| ACQ[e.ord as usize]), set(&|e| REL[e.ord as usize]));
    let sc = set(&|e| e.ord == 4);
    // release sequence: the write followed by read-modify-writes reading from it
    let rfrmw = rng(&rf, rmw);
    let rs = dom(&refl(&tc(&rfrmw)), w);
    let rel_w = { let fp = rng(&dom(po, f & rel), w); let mut x = fp; for i in 0..n { if rel & w >> i & 1 != 0 { } if rel >> i & 1 != 0 && w >> i & 1 != 0 { x[i] |= 1 << i; } } x };
    let r_acq = { let pf = rng(&dom(po, r), f & acq); let mut x = pf; for i in 0..n { if acq >> i & 1 != 0 && r >> i & 1 != 0 { x[i] |= 1 << i; } } x };
    let sw = comp(&comp(&comp(&rel_w, &rs), &rf), &r_acq);
    let hb = tc(&union(po, &sw));
    if !irrefl(&hb) { return Err("happens-before"); }
    let eco = tc(&union(&union(&rf, &mo), &rb));
    if !irrefl(&comp(&hb, &refl(&eco))) { return Err("happens-before"); }
    let scf = sc & f;
    let scb = union(&union(po, &comp(&comp(po, &hb), po)), &eco);
    let hbq = refl(&hb);
    let mut left = dom(&hbq, scf);
    let mut right = rng(&hbq, scf);
    for i in 0..n { if sc >> i & 1 != 0 && f >> i & 1 == 0 { left[i] |= 1 << i; right[i] |= 1 << i; } }
    let psc = union(&comp(&comp(&left, &scb), &right), &rng(&dom(&union(&hb, &comp(&comp(&hb, &eco), &hb)), scf), scf));
    if !irrefl(&tc(&psc)) { return Err("SeqCst order"); }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Shape { Mp, Sc, Coh, Rand }
fn val(sem: &Sem, t: Ty, k: u32) -> u128 {
    let bits = sem.bits(t);
    match t {
        F32 => (k as f32 * 1.5).to_bits() as u128,
        F64 => (k as f64 * 1.5).to_bits() as u128,
        F16 | F128 => { let (m, b) = (t.frac(), sem.bits(t)); (mask_bits(b - 2) ^ mask_bits(m)) + ((k as u128) << (m - 1)) }
        Bool => (k & 1) as u128,
        _ => { let mut v = 0u128; let mut s = 0; while s < bits { v |= (k as u128) << s; s += if bits >= 64 { bits / 2 } else { 64 }; } v & mask_bits(bits) }
    }
}
struct G<'a> { w: &'a World, k: u32, objs: Vec<Obj> }
impl G<'_> {
    fn pick_op(&self, r: &mut Rng, t: Ty, l: &[Op]) -> Op {
        let a = ops_for(t);
        for _ in 0..40 { let o = *r.pick(l); if a.contains(&o) && self.w.has(&Call::new(t, o, 0)) { return o; } }
        Op::Load
    }
    fn uniq(&mut self, t: Ty) -> u128 { self.k += 1; val(&self.w.sem, t, self.k) }
    fn write(&mut self, r: &mut Rng, obj: usize, o: u8, rmw_only: bool) -> Call {
        use Op::*;
        let t = self.objs[obj].ty;
        let op = if !rmw_only && r.chance(0.55) { if t.is_float() && r.chance(0.3) && self.w.has(&Call::new(t, BitsStore, 0)) { BitsStore } else { *r.pick(&[Store, Store, FpStore]) } } else {
            self.pick_op(r, t, if t.is_float() { &[Swap, FpSwap, Cas, FetchUpdate, BitsSwap, FetchAdd, FetchNeg, CasW, FetchMax, FetchSub, BitsFetchXor] } else if t == Bool { &[Swap, Cas, CasW, FetchOr, FetchXor, FetchNot, Not, Xor, Or, FetchAnd, FetchNand, FetchUpdate] } else { &[Swap, FpSwap, Cas, CasW, FetchUpdate, FetchAdd, FetchSub, FetchOr, FetchXor, FetchAnd, Add, Sub, Or, Xor, And, FetchNot, Not, FetchNeg, Neg, FetchNand, FetchMax, FetchMin, BitSet, BitToggle, FetchByteAdd, FetchPtrAdd, FetchPtrSub, BitClear] })
        };
        let op = if op == Load { Store } else { op };
        let mut c = Call::new(t, op, obj);
        c.a = self.uniq(t);
        if op.is_cas() { c.b = c.a; c.a = if r.chance(0.7) { self.objs[obj].init } else { val(&self.w.sem, t, 1 + r.below(self.k as u64) as u32) }; }
        if op.bit_op() { c.a = r.below(8) as u128; }
        if op == FetchUpdate { c.clo = Some(Clo { ret: CloRet::Const(c.a), panic_at: 0, nested: None }); }
        (c.o1, c.o2) = self.ords(r, &c, o);
        c
    }
    /// A read-modify-write that leaves the value zero as it is: for the other threads it is a write all the same.
    fn idle(&mut self, r: &mut Rng, obj: usize, o: u8) -> Call {
        use Op::*;
        let t = self.objs[obj].ty;
        let op = self.pick_op(r, t, &[FetchMax, FetchMin, FetchMax, FetchMin, Swap, Cas, FetchUpdate, FetchAdd, FetchSub, FetchOr, FetchXor, FetchAnd, Add, Sub, Or, Xor, And, BitClear, FetchByteAdd, FetchPtrAdd, FetchAbs]);
        let mut c = Call::new(t, op, obj);
        if matches!(op, FetchAnd | And) { c.a = mask_bits(self.w.sem.bits(t)); }
        if op.bit_op() { c.a = r.below(8) as u128; }
        if op == FetchUpdate { c.clo = Some(Clo { ret: CloRet::Const(0), panic_at: 0, nested: None }); }
        (c.o1, c.o2) = self.ords(r, &c, o);
        c
    }
    /// The weakest valid orderings of the call that give at least `o`.
    fn ords(&self, r: &mut Rng, c: &Call, o: u8) -> (u8, u8) {
        let a = if valid_ord(c.op, o, 0) { o } else { match (o, c.op.is_load()) { (3, true) => 1, (3, false) => 2, _ => 0 } };
        let b = if matches!(c.op, Op::Cas | Op::CasW | Op::FpCas | Op::FetchUpdate) { match o { 0 | 2 => if r.chance(0.8) { 0 } else { 1 }, 4 => *r.pick(&[4, 0, 4]), _ => *r.pick(&[1, 1, 0]) } } else { 4 };
        (a, b)
    }
    fn read(&mut self, r: &mut Rng, obj: usize, o: u8) -> Call {
        use Op::*;
        let t = self.objs[obj].ty;
        let op = if r.chance(0.7) { if t.is_float() && r.chance(0.2) && self.w.has(&Call::new(t, BitsLoad, 0)) { BitsLoad } else { *r.pick(&[Load, Load, FpLoad]) } } else { self.pick_op(r, t, &[Cas, Cas, CasW, FpCas, FetchUpdate, FetchUpdate, FetchOr, FetchAdd, FetchXor]) };
        let mut c = Call::new(t, op, obj);
        match op {
            Cas | CasW | FpCas => { c.a = if t == Bool { r.below(2) as u128 } else { val(&self.w.sem, t, 99) }; c.b = if t == Bool { c.a } else { val(&self.w.sem, t, 98) }; if t == Bool { c.b = c.a; } }
            FetchUpdate => c.clo = Some(Clo { ret: CloRet::Decline, panic_at: 0, nested: None }),
            _ => c.a = 0,
        }
        if op.is_cas() || op == FetchUpdate {
            // observing through the failure ordering
            c.o2 = match o { 1 | 3 => 1, 4 => 4, _ => 0 };
            c.o1 = if op == FetchUpdate { r.below(5) as u8 } else { r.below(5) as u8 };
            return c;
        }
        (c.o1, c.o2) = self.ords(r, &c, o);
        c
    }
    fn fence(&self, o: u8) -> Call { let mut c = Call::new(Misc, Op::Fence, 999); c.o1 = o; c }
    /// A release write, possibly as fence + relaxed write.
    fn rel(&mut self, r: &mut Rng, obj: usize, t: &mut Vec<Call>) {
        match r.below(4) {
            0 => { t.push(self.fence(*r.pick(&[2, 3, 4]))); let c = self.write(r, obj, 0, false); t.push(c); }
            _ => { let o = *r.pick(&[2, 3, 4, 2]); let c = self.write(r, obj, o, false); t.push(c); }
        }
    }
    fn acq(&mut self, r: &mut Rng, obj: usize, t: &mut Vec<Call>) {
        match r.below(4) {
            0 => { let c = self.read(r, obj, 0); t.push(c); t.push(self.fence(*r.pick(&[1, 3, 4]))); }
            1 => { let o = *r.pick(&[1, 3, 4]); let c = self.write(r, obj, o, true); t.push(c); }
            _ => { let o = *r.pick(&[1, 3, 4, 1]); let c = self.read(r, obj, o); t.push(c); }
        }
    }
}
fn lower(w: &World, th: &mut [Vec<Call>]) {
    // What LLVM makes of core's own atomics on Power (up to 64 bits, which portable-atomic passes on unchanged) falls short
    // in two ways that are not portable-atomic's to mend: a minimum or maximum that changes nothing is not a write, and
    // a failed compare-exchange gets no barrier in front, and behind it only what the success ordering asks for.
    if w.img.cfg.arch == crate::guest::Arch::Ppc64 {
        for c in th.iter_mut().flatten() {
            if c.ty == Misc || c.ty.size(8) > 8 { continue; }
            if matches!(c.op, Op::FetchMax | Op::FetchMin) && !c.ty.is_float() { c.op = Op::Swap; }
            if c.op.is_cas() || c.op == Op::FetchUpdate {
                if c.o2 == 4 { c.o2 = 1; }
                c.o1 = match (c.o1, c.o2) { (0, 1) => 1, (2, 1) => 3, (o, _) => o };
            }
        }
    }
}
/// A random memory-model program.
pub fn gen(w: &World, r: &mut Rng, tys: &[Ty], shape: Shape, model: Model) -> Prog {
    let mut p = Prog::new();
    let meet = matches!(shape, Shape::Mp) && r.chance(0.15);
    let no = match shape { _ if meet => 3, Shape::Coh => 1 + r.usize(2), _ => 2 + r.usize(2) };
    let mut avail: Vec<Ty> = tys.iter().copied().filter(|t| w.has_ty(*t)).collect();
    if avail.is_empty() { avail = ALL_TY.iter().copied().filter(|t| w.has_ty(*t)).collect(); }
    let tys = &avail[..];
    let t0 = *r.pick(tys);
    let mix = r.chance(0.6);
    let ot: Vec<Ty> = (0..no).map(|_| if mix { *r.pick(tys) } else { t0 }).collect();
    let pk = r.chance(0.1);
    let offs = place(w, r, &ot, pk);
    for i in 0..no { p.objs.push(Obj { ty: ot[i], off: offs[i], init: 0 }); }
    let mut g = G { w, k: 0, objs: p.objs.clone() };
    let mut th: Vec<Vec<Call>> = vec![];
    let (x, y) = (0, 1 % no);
    let z = no - 1;
    match shape {
        Shape::Mp if meet => {
            // two threads that meet in read-modify-writes of one object, mostly without changing it
            for i in 0..2 {
                let mut t = vec![];
                let c = g.write(r, i, 0, false); t.push(c);
                let o = *r.pick(&[3, 3, 4]);
                let c = if r.chance(0.85) { g.idle(r, 2, o) } else { g.write(r, 2, o, true) };
                t.push(c);
                let c = g.read(r, 1 - i, 0); t.push(c);
                th.push(t);
            }
        }
        Shape::Mp => {
            let kind = r.below(6);
            let mut t = vec![];
            let c = g.write(r, x, 0, false); t.push(c);
            g.rel(r, y, &mut t);
            th.push(t);
            match kind {
                0 | 1 => {}
                2 => {
                    // release sequence continued by a read-modify-write elsewhere
                    let o = *r.pick(&[0, 0, 1, 2]);
                    let c = g.write(r, y, o, true);
                    th.push(vec![c]);
                }
                3 => {
                    // write-to-read causality through a third CPU
                    let mut t = vec![];
                    g.acq(r, y, &mut t);
                    g.rel(r, z, &mut t);
                    th.push(t);
                }
                _ => { let c = g.write(r, x, 0, false); th.push(vec![c]); }
            }
            let mut t = vec![];
            g.acq(r, if kind == 3 { z } else { y }, &mut t);
            let c = if r.chance(0.75) { g.read(r, x, 0) } else { g.write(r, x, 0, false) };
            t.push(c);
            if r.chance(0.2) { let c = g.read(r, x, 0); t.push(c); }
            th.push(t);
        }
        Shape::Sc => {
            let fenced = r.chance(0.35);
            let o = |r: &mut Rng| if fenced { if r.chance(0.7) { 0 } else { r.below(5) as u8 } } else if r.chance(0.9) { 4 } else { r.below(5) as u8 };
            let kind = r.below(5);
            let fe = |g: &G, t: &mut Vec<Call>| if fenced { t.push(g.fence(4)); };
            match kind {
                0 | 1 => {
                    // store buffering, two or three CPUs
                    let n = if no > 2 && r.chance(0.4) { 3 } else { 2 };
                    for i in 0..n {
                        let mut t = vec![];
                        if r.chance(0.15) { let o1 = o(r); let c = g.read(r, (i + 1) % n, o1); t.push(c); }
                        let o1 = o(r); let c = g.write(r, i % no, o1, false); t.push(c);
                        fe(&g, &mut t);
                        let o1 = o(r);
                        let c = if r.chance(0.85) { g.read(r, (i + 1) % n % no, o1) } else { g.write(r, (i + 1) % n % no, o1, true) };
                        t.push(c);
                        th.push(t);
                    }
                }
                2 => {
                    // independent reads of independent writes
                    for i in [x, y] { let o1 = if fenced { 0 } else { o(r) }; let c = g.write(r, i, o1, false); th.push(vec![c]); }
                    for (a, b) in [(x, y), (y, x)] {
                        let mut t = vec![];
                        let o1 = o(r); let c = g.read(r, a, o1); t.push(c);
                        fe(&g, &mut t);
                        let o1 = o(r); let c = g.read(r, b, o1); t.push(c);
                        th.push(t);
                    }
                }
                3 => {
                    // 2+2W / R with a final observation
                    for (a, b) in [(x, y), (y, x)] {
                        let mut t = vec![];
                        let o1 = o(r); let c = g.write(r, a, o1, false); t.push(c);
                        fe(&g, &mut t);
                        let o1 = o(r); let c = if r.chance(0.5) { g.write(r, b, o1, false) } else { g.read(r, b, o1) }; t.push(c);
                        th.push(t);
                    }
                }
                _ => {
                    // read-to-write causality
                    let o1 = o(r); let c = g.write(r, x, o1, false); th.push(vec![c]);
                    for (a, b, wr) in [(x, y, false), (y, x, true)] {
                        let mut t = vec![];
                        let o1 = o(r); let c = if wr { g.write(r, a, o1, false) } else { g.read(r, a, o1) }; t.push(c);
                        fe(&g, &mut t);
                        let o1 = o(r); let c = g.read(r, b, o1); t.push(c);
                        th.push(t);
                    }
                }
            }
        }
        Shape::Coh => {
            let n = 2 + r.usize(3);
            for _ in 0..n {
                let mut t = vec![];
                for _ in 0..1 + r.usize(3) {
                    let ob = r.usize(no);
                    let o = if r.chance(0.8) { 0 } else { r.below(5) as u8 };
                    let k = r.below(10);
                    let c = if k < 5 { g.read(r, ob, o) } else { let rmw = k >= 8; g.write(r, ob, o, rmw) };
                    t.push(c);
                }
                th.push(t);
            }
        }
        Shape::Rand => {
            let n = 2 + r.usize(3);
            for _ in 0..n {
                let mut t = vec![];
                for _ in 0..1 + r.usize(3) {
                    let ob = r.usize(no);
                    let o = r.below(5) as u8;
                    let c = match r.below(11) { 0 => g.fence(1 + r.below(4) as u8), 10 => g.idle(r, ob, o), 1..=4 => g.read(r, ob, o), k => { let rmw = k >= 8; g.write(r, ob, o, rmw) } };
                    t.push(c);
                }
                th.push(t);
            }
        }
    }
    for t in th.iter_mut() { for c in t.iter_mut() { if !valid_ord(c.op, c.o1, c.o2) { let (a, b) = rand_ord(r, c.op); c.o1 = a; c.o2 = b; } } }
    lower(w, &mut th);
    p.threads = th;
    p.model = model;
    p.fp = swarm(r, model);
    p.fp.nmca = model == Model::Weak && may_split(&w.img.cfg) && r.chance(0.6);
    p.strat = strategy(r, p.threads.len());
    p
}
pub const FUSE_TY: [Ty; 10] = [U8, U16, U32, U64, U128, U128, Ptr, F32, F64, Bool];
/// Operations compiled together with plain accesses around them (and, on one core, interrupt handlers as the other side).
pub fn fused(w: &mut World, r: &mut Rng, shape: Shape, model: Model, one_core: bool) -> Prog {
    let mut p = Prog::new();
    let tys: Vec<Ty> = FUSE_TY.iter().copied().filter(|t| w.has_ty(*t)).collect();
    let n = 1 + r.usize(2);
    let mut ot: Vec<Ty> = (0..n).map(|_| *r.pick(&tys)).collect();
    ot.extend([U8, U8]);
    let pk = r.chance(0.2);
    let offs = place(w, r, &ot, pk);
    for i in 0..ot.len() { p.objs.push(Obj { ty: ot[i], off: offs[i], init: 0 }); }
    let (d0, d1) = (n, n + 1);
    let mut k = 0u8;
    let mut th: Vec<Vec<Call>> = vec![];
    {
        let mut g = G { w, k: 0, objs: p.objs.clone() };
        let nth = if r.chance(0.8) { 2 } else { 3 };
        // store buffering across two fences: the pair a compiler-visible fence has to keep apart
        let sb = matches!(shape, Shape::Sc) && r.chance(0.25);
        // or two threads whose read-modify-writes of one object come in some order, whatever they write
        let meet = !sb && !matches!(shape, Shape::Coh) && r.chance(0.3);
        let nth = if meet { 2 } else { nth };
        for t in 0..nth {
            let mut v: Vec<Call> = vec![];
            for _ in 0..if t == 2 || sb || meet { 1 } else { 1 + r.usize(2) } {
                let x = if meet { 0 } else { r.usize(n) };
                let kind = if sb && t < 2 { 0 } else if meet { 8 + r.below(2) } else if matches!(shape, Shape::Sc) && r.chance(0.25) { 0 } else { r.below(10) };
                let o = match shape { _ if meet => *r.pick(&[3, 3, 4]), Shape::Mp => *r.pick(&[1, 2, 3, 4, 0]), Shape::Sc => *r.pick(&[4, 4, 4, 3, 0]), _ => r.below(5) as u8 };
                let mut c = match kind {
                    0 => g.fence(match shape { Shape::Sc => 4, _ => 1 + r.below(4) as u8 }),
                    1 => g.read(r, if t == 0 { d1 } else { d0 }, 0),
                    2 => g.write(r, if t == 0 { d0 } else { d1 }, 0, false),
                    3..=5 => g.read(r, x, o),
                    9 => g.idle(r, x, o),
                    _ => { let rmw = meet || r.chance(0.6); g.write(r, x, o, rmw) }
                };
                if c.op == Op::FpLoad || c.op == Op::FpStore || c.op == Op::FpSwap || c.op == Op::FpCas { c.op = match c.op { Op::FpLoad => Op::Load, Op::FpStore => Op::Store, Op::FpSwap => Op::Swap, _ => Op::Cas }; }
                if !valid_ord(c.op, c.o1, c.o2) { (c.o1, c.o2) = rand_ord(r, c.op); }
                // the plain accesses below go to the same bytes: only accesses that are one instruction everywhere mix with those
                if matches!(kind, 1 | 2) { let (t, x, a) = (c.ty, c.obj, if c.op.is_cas() { c.b } else { c.a }); c = Call::new(t, if kind == 1 { Op::Load } else { Op::Store }, x); c.a = a; }
                if !matches!(kind, 1 | 2) && t < 2 && (sb || meet || r.chance(0.85)) {
                    k = (k % 120) + 2;
                    c.fuse = Some(Fuse { w: if t == 0 { d0 } else { d1 }, r: if t == 0 { d1 } else { d0 }, v1: 100 + k, v2: 101 + k });
                    if !g.w.has(&c) { c.fuse = None; }
                }
                v.push(c);
            }
            th.push(v);
        }
    }
    p.threads = th;
    p.model = model;
    p.fp = swarm(r, model);
    p.strat = strategy(r, p.threads.len());
    lower(w, &mut p.threads);
    if one_core {
        let main = r.usize(p.threads.len());
        let t = p.threads.remove(main);
        let rest = std::mem::replace(&mut p.threads, vec![t]);
        p.model = Model::Sc;
        p.strat = Strat::Rand(100);
        let m = w.run(&p, 1, None).per_cpu[0].0;
        for calls in rest { p.irqs.push(Irq { cpu: 0, at: r.below(m + m / 4 + 2), calls, nest: r.chance(0.4) }); }
    } else { p.fp.nmca = model == Model::Weak && may_split(&w.img.cfg) && r.chance(0.6); }
    p
}
/// One thread waits in a loop of loads until an atomic changes; the others (or an interrupt handler) change it, once each.
pub fn wait(w: &mut World, r: &mut Rng, one_core: bool) -> Prog {
    let mut p = Prog::new();
    let tys: Vec<Ty> = [U8, U16, U32, U64, U128, Ptr].into_iter().filter(|t| w.has(&Call::new(*t, Op::Wait, 0))).collect();
    let t = *r.pick(&tys);
    let off = place(w, r, &[t], false)[0];
    let full = crate::ops::mask_bits(w.size(t) * 8);
    let init = r.u128() & full;
    p.objs.push(Obj { ty: t, off, init });
    let mut waits = Call::new(t, Op::Wait, 0);
    waits.a = init;
    waits.o1 = *r.pick(&[0, 0, 1, 4]);
    let change = |r: &mut Rng| {
        let mut c = Call::new(t, *r.pick(&[Op::Store, Op::Swap, Op::Cas]), 0);
        (c.o1, c.o2) = rand_ord(r, c.op);
        let v = match r.below(3) { 0 => init ^ (1 << r.below(w.size(t) as u64 * 8)), 1 => init.wrapping_add(1 + r.below(3) as u128) & full, _ => init ^ full };
        if c.op == Op::Cas { c.a = init; c.b = v; } else { c.a = v; }
        if !w.has(&c) { c = Call { op: Op::Store, a: v, o1: 0, ..c }; }
        c
    };
    let n = 1 + r.usize(2);
    if one_core {
        p.threads.push(vec![waits]);
        for _ in 0..n { let c = change(r); p.irqs.push(Irq { cpu: 0, at: r.below(60), calls: vec![c], nest: r.chance(0.3) }); }
        p.strat = Strat::Rand(100);
    } else {
        for _ in 0..1 + r.usize(2) { p.threads.push(vec![waits.clone()]); }
        for _ in 0..n { let c = change(r); p.threads.push(vec![c]); }
        let k = p.threads.len();
        p.strat = strategy(r, k);
        for i in 0..r.usize(3) { p.stalls.push((i % k, r.below(30), 50 + r.below(600))); }
    }
    p.fair_after = 1_500;
    p.max_slices = 25_000;
    p
}
pub fn eval(w: &World, p: &Prog, r: &Run) -> Option<Viol> {
    if !r.finished { return crate::runner::std_eval(w, p, r, false, false); }
    if let Some(v) = crate::runner::panics(r) { return Some(v); }
    let fin = if r.recs.iter().all(|x| matches!(x.out, Out::Done(_))) { Some(&r.finals[..]) } else { None };
    match check(&w.sem, p, &r.recs, fin) { Ok(()) => None, Err(m) => Some(Viol { kind: Kind::Lin, msg: m }) }
}
