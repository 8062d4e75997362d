//! Linearizability of one object's history against the sequential reference model (Wing & Gong
//! search with memoisation).
use crate::engine::{Out, Rec};
use crate::ops::*;
use std::collections::HashSet;

pub struct L<'a> { pub call: &'a Call, pub cpu: usize, pub inv: u64, pub res: u64, pub ret: Option<&'a Ret>, pub clo: &'a [(u128, Option<u128>)], pub optional: bool }

/// `real_time`: precedence is real-time order; otherwise only each CPU's own order.
pub fn check(sem: &Sem, recs: &[Rec], obj: usize, init: u128, fin: Option<u128>, real_time: bool) -> Result<(), String> {
    let mut ops: Vec<L> = vec![];
    let virt: Vec<(Call, Ret, usize, u64, u64)> = recs.iter().filter(|r| r.call.obj == obj && r.call.op == Op::FetchUpdate).flat_map(|r| {
        // each closure invocation saw a value that was current at some point before the call
        r.clo.iter().zip(&r.clo_at).map(move |(c, t)| (Call::new(r.call.ty, Op::Load, obj), Ret { val: c.0, ok: true, text: None }, r.cpu, r.inv, *t))
    }).collect();
    for r in recs {
        if r.call.obj != obj || matches!(r.call.op, Op::AsPtr | Op::LockFree | Op::Fence | Op::CFence | Op::Spin) { continue; }
        match &r.out {
            Out::Done(ret) => ops.push(L { call: &r.call, cpu: r.cpu, inv: r.inv, res: r.res, ret: Some(ret), clo: &r.clo, optional: false }),
            Out::Pending => ops.push(L { call: &r.call, cpu: r.cpu, inv: r.inv, res: u64::MAX, ret: None, clo: &r.clo, optional: true }),
            Out::Panicked | Out::CloPanicked => {}
        }
    }
    if real_time { for v in &virt { ops.push(L { call: &v.0, cpu: v.2, inv: v.3, res: v.4, ret: Some(&v.1), clo: &[], optional: false }); } }
    let n = ops.len();
    if n > 60 { return long(sem, ops, obj, init, fin, real_time); }
    let mut pred = vec![0u64; n];
    for i in 0..n { for j in 0..n { if ops[j].res < ops[i].inv && (real_time || ops[i].cpu == ops[j].cpu) { pred[i] |= 1 << j; } } }
    let need: u64 = (0..n).filter(|i| !ops[*i].optional).map(|i| 1u64 << i).sum();
    let mut seen: HashSet<(u64, St)> = HashSet::new();
    let mut stack: Vec<(u64, St)> = vec![(0, St::Val(init))];
    let ty = ops.first().map(|o| o.call.ty);
    let mut fin_fail = false;
    while let Some((done, s)) = stack.pop() {
        if !seen.insert((done, s)) { continue; }
        if seen.len() > 400_000 { return Ok(()); }
        if done & need == need {
            match (fin, s) {
                (Some(f), St::Val(v)) if f != v => fin_fail = true,
                (Some(f), St::AnyNan) if !is_nan(ty.unwrap(), f) => fin_fail = true,
                _ => return Ok(()),
            }
        }
        // an operation that only reads and matches the current value goes first: that never rules out an order
        let enabled = |i: usize| done >> i & 1 == 0 && pred[i] & !done == 0;
        if let Some(i) = (0..n).find(|&i| enabled(i) && reads_only(&ops[i]) && matches!(s, St::Val(_)) && sem.step(ops[i].call, s, ops[i].ret, ops[i].clo) == [s]) { stack.push((done | 1 << i, s)); continue; }
        for i in 0..n {
            if !enabled(i) { continue; }
            for s2 in sem.step(ops[i].call, s, ops[i].ret, ops[i].clo) { stack.push((done | 1 << i, s2)); }
        }
    }
    Err(if fin_fail { format!("no order of the operations on x{obj} explains both the results and the final value {:#x}", fin.unwrap()) } else { format!("no order of the operations on x{obj} explains the results") })
}
fn reads_only(l: &L) -> bool {
    !l.optional && (l.call.op.is_load() || (l.call.op.is_cas() || l.call.op == Op::FetchUpdate) && l.ret.is_some_and(|r| !r.ok))
}
/// Long histories of few CPUs: the operations fall into a few sequences in real-time order, and a
/// search state is a position in each of them.
fn long(sem: &Sem, mut ops: Vec<L>, obj: usize, init: u128, fin: Option<u128>, real_time: bool) -> Result<(), String> {
    if !real_time || ops.iter().any(|o| o.optional) { return Ok(()); }
    ops.sort_by_key(|o| (o.inv, o.res));
    let mut seqs: Vec<Vec<L>> = vec![];
    for o in ops {
        // what one call's closure saw, in the order of its invocations, is a sequence too
        let virt = o.call.op == Op::Load && o.clo.is_empty();
        match seqs.iter_mut().find(|s| { let l = s.last().unwrap(); l.res < o.inv || virt && l.call.op == Op::Load && l.inv == o.inv && l.cpu == o.cpu && l.res <= o.res }) {
            Some(s) => s.push(o),
            None => seqs.push(vec![o]),
        }
    }
    if seqs.len() > 8 { return Ok(()); }
    let k = seqs.len();
    let mut seen: HashSet<([u16; 8], St)> = HashSet::new();
    let mut stack = vec![([0u16; 8], St::Val(init))];
    let ty = seqs[0][0].call.ty;
    let mut fin_fail = false;
    while let Some((pos, s)) = stack.pop() {
        if !seen.insert((pos, s)) { continue; }
        if seen.len() > 400_000 { return Ok(()); }
        if (0..k).all(|i| pos[i] as usize == seqs[i].len()) {
            match (fin, s) {
                (Some(f), St::Val(v)) if f != v => fin_fail = true,
                (Some(f), St::AnyNan) if !is_nan(ty, f) => fin_fail = true,
                _ => return Ok(()),
            }
            continue;
        }
        let first = |j: usize| seqs[j].get(pos[j] as usize);
        let enabled = |i: usize| first(i).is_some_and(|o| (0..k).all(|j| j == i || first(j).is_none_or(|q| q.res >= o.inv)));
        let next = |i: usize| { let mut p = pos; p[i] += 1; p };
        if let Some(i) = (0..k).find(|&i| enabled(i) && reads_only(&seqs[i][pos[i] as usize]) && matches!(s, St::Val(_)) && { let o = &seqs[i][pos[i] as usize]; sem.step(o.call, s, o.ret, o.clo) == [s] }) { stack.push((next(i), s)); continue; }
        for i in 0..k {
            if !enabled(i) { continue; }
            let o = &seqs[i][pos[i] as usize];
            for s2 in sem.step(o.call, s, o.ret, o.clo) { stack.push((next(i), s2)); }
        }
    }
    Err(if fin_fail { format!("no order of the operations on x{obj} explains both the results and the final value {:#x}", fin.unwrap()) } else { format!("no order of the operations on x{obj} explains the results") })
}
