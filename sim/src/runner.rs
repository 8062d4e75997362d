//! Seeded search over many runs, minimisation, replay files, evidence.
use crate::engine::*;
use crate::gen::{prog_from_j, prog_to_j};
use crate::guest::{self, Cfg, Image};
use crate::ops::*;
use crate::util::{hash64, hash_str, Rng, J};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering as AO};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type GenFn = Box<dyn Fn(&mut World, &mut Rng) -> Prog + Send + Sync>;
pub type EvalFn = Box<dyn Fn(&World, &Prog, &Run) -> Option<Viol> + Send + Sync>;
pub struct Scen { pub name: String, pub cfg: Cfg, pub gen: GenFn, pub eval: EvalFn, pub quick: u64, pub thorough: u64 }
pub struct Check { pub id: &'static str, pub scens: Vec<Scen>, pub assumptions: Vec<&'static str>, pub rule: &'static str }

#[derive(Default)]
struct Agg { runs: u64, insns: u64, slices: u64, switches: u64, ops: u64, faults: BTreeMap<&'static str, u64>, seen: HashSet<u64>, nontrivial: u64, inconclusive: u64, inc_msgs: BTreeMap<String, u64>, unfinished: u64, tags: BTreeMap<String, u64>, opcount: BTreeMap<String, u64>, samples: Vec<J> }
impl Agg {
    fn merge(&mut self, o: Agg) {
        self.runs += o.runs; self.insns += o.insns; self.slices += o.slices; self.switches += o.switches; self.ops += o.ops;
        for (k, v) in o.faults { *self.faults.entry(k).or_default() += v; }
        self.seen.extend(o.seen);
        self.nontrivial += o.nontrivial; self.inconclusive += o.inconclusive; self.unfinished += o.unfinished;
        for (k, v) in o.inc_msgs { *self.inc_msgs.entry(k).or_default() += v; }
        for (k, v) in o.tags { *self.tags.entry(k).or_default() += v; }
        for (k, v) in o.opcount { *self.opcount.entry(k).or_default() += v; }
        self.samples.extend(o.samples);
    }
    fn add(&mut self, p: &Prog, r: &Run, phash: u64, detail: bool) {
        self.runs += 1;
        let s = &r.stats;
        self.insns += s.insns; self.slices += s.slices; self.switches += s.switches; self.ops += r.recs.len() as u64;
        let m = &s.mem;
        let mut f = |k: &'static str, v: u64| if v > 0 { *self.faults.entry(k).or_default() += v; };
        f("context_switch", s.switches);
        f("cpu_stall", s.stalls);
        f("stamp_jump", s.jumps);
        f("cpu_frozen_forever", p.freeze.len() as u64);
        f("interrupt", s.irqs);
        f("store_delayed_in_buffer", m.delayed);
        f("store_visible_out_of_order", m.ooo);
        f("stale_load", m.stale);
        f("store_conditional_failure", m.scfail);
        f("rmw_store_delayed_line_owned", m.owned);
        f("torn_access", m.torn);
        f("write_reaches_cpus_separately", m.split);
        f("closure_panic", s.clopanics);
        f("reentrant_closure_op", s.nested);
        f("formatter_or_serializer_error", s.sinkfail);
        f("critical_section", s.cs);
        if p.threads.len() + p.irqs.len() > 1 && s.switches + s.irqs > 1 || s.sinkfail + s.clopanics > 0 || !p.tag.is_empty() || r.recs.len() >= 3 {
            let h = hash64(&[phash, r.hash]);
            if self.seen.len() < 3_000_000 { if self.seen.insert(h) { self.nontrivial += 1; } } else { self.nontrivial += 1; }
        }
        if let Some(i) = &r.inconclusive { self.inconclusive += 1; if self.inc_msgs.len() < 20 { *self.inc_msgs.entry(i.clone()).or_default() += 1; } }
        if !r.finished { self.unfinished += 1; }
        if !p.tag.is_empty() { *self.tags.entry(p.tag.clone()).or_default() += 1; }
        if detail { for x in &r.recs { *self.opcount.entry(x.call.op.name().to_string()).or_default() += 1; } }
    }
}
pub struct Found { scen: usize, index: u64, seed: u64, prog: Prog, choices: Vec<u16>, viol: Viol }

pub fn seeds(vs: u64, id: &str, scen: &str, i: u64) -> (u64, u64) {
    let s = hash64(&[vs, hash_str(id), hash_str(scen), i]);
    (s, s ^ 0x5151_5151_5151_5151)
}
type Built = (HashMap<String, Arc<Image>>, Vec<(String, String)>);
pub fn build_all(cfgs: &[Cfg]) -> Built {
    let out = Mutex::new(HashMap::new());
    let err = Mutex::new(vec![]);
    let q = Mutex::new(cfgs.to_vec());
    std::thread::scope(|s| {
        for _ in 0..8.min(cfgs.len().max(1)) {
            s.spawn(|| loop {
                let Some(c) = ({ let mut l = q.lock().unwrap(); if l.is_empty() { None } else { Some(l.remove(0)) } }) else { return };
                match guest::build(&c) { Ok(i) => { out.lock().unwrap().insert(c.name.to_string(), Arc::new(i)); } Err(e) => err.lock().unwrap().push((c.name.to_string(), e)), }
            });
        }
    });
    (out.into_inner().unwrap(), err.into_inner().unwrap())
}
fn run_once(w: &mut World, p: &Prog, seed: u64, forced: Option<Vec<u16>>, eval: &EvalFn) -> (Run, Option<Viol>) {
    let r = w.run(p, seed, forced);
    if r.inconclusive.is_some() { return (r, None); }
    let v = match &r.viol { Some(v) => Some(v.clone()), None => eval(w, p, &r) };
    (r, v)
}
pub fn run_check(chk: &Check, tier: &str, vs: u64, workers: usize) -> i32 {
    let t0 = Instant::now();
    let mut cfgs: Vec<Cfg> = vec![];
    let only = std::env::var("PASIM_SCEN").unwrap_or_default();
    let mut scens: Vec<usize> = (0..chk.scens.len()).filter(|i| (tier == "thorough" && chk.scens[*i].thorough > 0 || chk.scens[*i].quick > 0) && (only.is_empty() || only.split('|').any(|o| chk.scens[*i].name.contains(o)))).collect();
    for &i in &scens { if !cfgs.iter().any(|c| c.name == chk.scens[i].cfg.name) { cfgs.push(chk.scens[i].cfg.clone()); } }
    let (imgs, unbuilt) = build_all(&cfgs);
    for (c, e) in &unbuilt { eprintln!("pasim: guest {c} does not build: {e}"); }
    // a target the tree does not compile for leaves the property undecided there, not everywhere
    if unbuilt.len() * 4 > cfgs.len() { return 2; }
    scens.retain(|i| imgs.contains_key(chk.scens[*i].cfg.name));
    let build_s = t0.elapsed().as_secs_f64();
    let cap = Duration::from_secs(std::env::var("PASIM_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 3600 } else { 420 }));
    let mult: f64 = std::env::var("PASIM_MULT").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let t1 = Instant::now();
    let mut total = Agg::default();
    let mut per: Vec<J> = vec![];
    let mut found: Option<Found> = None;
    let mut truncated = false;
    let mut harness: Vec<String> = unbuilt.iter().map(|(c, _)| format!("guest {c} does not build")).collect();
    for &si in &scens {
        let sc = &chk.scens[si];
        let n = ((if tier == "thorough" { sc.thorough } else { sc.quick }) as f64 * mult) as u64;
        let img = imgs[sc.cfg.name].clone();
        let stop = AtomicBool::new(false);
        let next = AtomicU64::new(0);
        let best: Mutex<Option<Found>> = Mutex::new(None);
        let agg = Mutex::new(Agg::default());
        let trunc = AtomicBool::new(false);
        let ts = Instant::now();
        std::thread::scope(|s| {
            for _ in 0..workers {
                s.spawn(|| {
                    let mut w = World::new(img.clone());
                    let mut a = Agg::default();
                    'o: loop {
                        let b = next.fetch_add(64, AO::Relaxed);
                        if b >= n || stop.load(AO::Relaxed) { break; }
                        if t1.elapsed() > cap { trunc.store(true, AO::Relaxed); break; }
                        for i in b..(b + 64).min(n) {
                            let (s1, s2) = seeds(vs, chk.id, &sc.name, i);
                            // code gone astray may take the simulator somewhere it does not expect: that run is undecided, no more
                            let one = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                let p = (sc.gen)(&mut w, &mut Rng::new(s1));
                                let (run, v) = run_once(&mut w, &p, s2, None, &sc.eval);
                                (p, run, v)
                            }));
                            let Ok((p, run, v)) = one else {
                                w = World::new(img.clone());
                                a.runs += 1;
                                a.inconclusive += 1;
                                *a.inc_msgs.entry("simulator panic".into()).or_default() += 1;
                                continue;
                            };
                            a.add(&p, &run, s1, i % 16 == 0);
                            if i % 4096 == 1 && a.samples.len() < 2 { a.samples.push(J::obj().set("scenario", sc.name.as_str()).set("seed", format!("{s1:#x}")).set("program", p.threads.iter().enumerate().map(|(k, t)| J::Str(format!("cpu{k}: {}", t.iter().map(|c| c.show()).collect::<Vec<_>>().join("; ")))).collect::<Vec<_>>()).set("history", recs_text(&run.recs)).set("choices", w.mem.ch.rec.len()).set("schedule_slices", run.stats.slices)); }
                            if let Some(v) = v {
                                let mut g = best.lock().unwrap();
                                if g.as_ref().map_or(true, |f| i < f.index) { *g = Some(Found { scen: si, index: i, seed: s2, prog: p, choices: w.mem.ch.rec.clone(), viol: v }); }
                                stop.store(true, AO::Relaxed);
                                break 'o;
                            }
                        }
                    }
                    agg.lock().unwrap().merge(a);
                });
            }
        });
        let a = agg.into_inner().unwrap();
        truncated |= trunc.load(AO::Relaxed);
        let el = ts.elapsed().as_secs_f64();
        per.push(J::obj().set("scenario", sc.name.as_str()).set("guest", format!("{} {} {}", sc.cfg.triple, sc.cfg.flags.join(" "), sc.cfg.feats.join(","))).set("runs", a.runs).set("distinct_nontrivial", a.nontrivial).set("instructions", a.insns).set("operations", a.ops).set("unfinished_runs", a.unfinished).set("inconclusive_runs", a.inconclusive).set("wall_s", (el * 100.0).round() / 100.0));
        if std::env::var("PASIM_VERBOSE").is_ok() { eprintln!("{:24} {:>9} runs {:>9} nontrivial {:>6.2}s unfinished {} inconclusive {} {:?}", sc.name, a.runs, a.nontrivial, el, a.unfinished, a.inconclusive, a.inc_msgs.iter().take(3).collect::<Vec<_>>()); }
        if a.inconclusive * 2 > a.runs { harness.push(format!("{}: {:?}", sc.name, a.inc_msgs.iter().next())); }
        total.merge(a);
        found = best.into_inner().unwrap();
        if found.is_some() { break; }
    }
    let search_s = t1.elapsed().as_secs_f64().max(0.001);
    let mut code = 0;
    if let Some(f) = found {
        let sc = &chk.scens[f.scen];
        let mut w = World::new(imgs[sc.cfg.name].clone());
        let path = report(chk, sc, &mut w, f, tier, vs);
        println!("VIOLATION property={} replay={}", chk.id, path);
        code = 1;
    } else if !harness.is_empty() && total.inconclusive * 4 <= total.runs {
        // parts of the search ended at a limit of the simulator: said, and recorded in the evidence
        for h in &harness { println!("INCONCLUSIVE property={} {h}", chk.id); }
    } else if !harness.is_empty() {
        eprintln!("pasim: harness limits: {harness:?}");
        code = 2;
    }
    let per_h = total.runs as f64 / search_s * 3600.0;
    let mut fj = J::obj();
    for (k, v) in &total.faults { fj.put(k, *v); }
    let mut oj = J::obj();
    for (k, v) in &total.opcount { oj.put(k, *v); }
    let mut tj = J::obj();
    for (k, v) in &total.tags { tj.put(k, *v); }
    let mut ij = J::obj();
    for (k, v) in &total.inc_msgs { ij.put(k, *v); }
    total.samples.truncate(4);
    let ev = J::obj().set("property", chk.id).set("tier", tier).set("seed", vs).set("level", "exploration").set("wall_s", t0.elapsed().as_secs_f64()).set("violations", (code == 1) as u64)
        .set("assumptions", chk.assumptions.iter().map(|s| J::Str(s.to_string())).collect::<Vec<_>>())
        .set("coverage", J::obj().set("evaluations", total.runs).set("distinct_nontrivial", total.nontrivial).set("rule", chk.rule).set("samples", J::Arr(total.samples.clone()))
            .set("runs_and_seeds_per_hour", per_h.round()).set("simulated_time", J::obj().set("instructions", total.insns).set("scheduler_slices", total.slices).set("operations_completed_or_pending", total.ops))
            .set("faults_injected", fj).set("operations_sampled_1_in_16", oj).set("scenario_tags", tj).set("scenarios", J::Arr(per)).set("inconclusive_runs", total.inconclusive).set("inconclusive_reasons", ij).set("scenarios_mostly_inconclusive", harness.iter().map(|h| J::Str(h.clone())).collect::<Vec<_>>()).set("truncated_by_time_cap", truncated)
            .set("distinctness_measure", "hash of (program seed, sequence of scheduled CPUs, committed shared-memory contents after every slice)")
            .set("real_code", "machine code of /repo's portable-atomic compiled for the guest target, executed instruction by instruction")
            .set("stubs", "CPU instruction semantics, memory system, CPUID/auxv/syscall answers, critical-section implementation, closures, formatter sink, interrupt controller")
            .set("build_s", build_s).set("search_s", search_s));
    let dir = guest::root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", chk.id)), ev.text() + "\n") { eprintln!("pasim: {e}"); return 2; }
    eprintln!("{}: {} runs, {} distinct non-trivial, {:.1}s build, {:.1}s search{}", chk.id, total.runs, total.nontrivial, build_s, search_s, if truncated { " (time cap)" } else { "" });
    code
}

/// Re-executes until the same kind of violation shows; used by the minimiser.
fn hunt(w: &mut World, sc: &Scen, p: &Prog, kind: Kind, forced: Option<&[u16]>, tries: u64, salt: u64) -> Option<(Vec<u16>, Viol)> {
    if let Some(f) = forced {
        let (_, v) = run_once(w, p, 0, Some(f.to_vec()), &sc.eval);
        if let Some(v) = v { if v.kind == kind { return Some((w.mem.ch.rec.clone(), v)); } }
    }
    for i in 0..tries {
        let (_, v) = run_once(w, p, hash64(&[salt, i]), None, &sc.eval);
        if let Some(v) = v { if v.kind == kind { return Some((w.mem.ch.rec.clone(), v)); } }
    }
    None
}
fn report(chk: &Check, sc: &Scen, w: &mut World, f: Found, tier: &str, vs: u64) -> String {
    let deadline = Instant::now() + Duration::from_secs(25);
    let kind = f.viol.kind;
    let (mut p, mut ch, mut v) = (f.prog.clone(), f.choices.clone(), f.viol.clone());
    let first = f.viol.msg.clone();
    // 1. smaller program
    let mut progress = true;
    while progress && Instant::now() < deadline {
        progress = false;
        let mut cands: Vec<Prog> = vec![];
        for i in 0..p.irqs.len() { let mut q = p.clone(); q.irqs.remove(i); cands.push(q); }
        for i in 0..p.stalls.len() { let mut q = p.clone(); q.stalls.remove(i); cands.push(q); }
        for i in 0..p.jumps.len() { let mut q = p.clone(); q.jumps.remove(i); cands.push(q); }
        if !p.pokes.is_empty() { let mut q = p.clone(); q.pokes.clear(); cands.push(q); }
        if let Strat::Starve { rounds, .. } = p.strat { if rounds > 1 { for n in [rounds / 2, rounds - rounds / 8, rounds - 1] { let mut q = p.clone(); if let Strat::Starve { rounds, .. } = &mut q.strat { *rounds = n; } cands.push(q); } } }
        for i in 0..p.freeze.len() { let mut q = p.clone(); q.freeze.remove(i); cands.push(q); }
        for k in 0..p.post.len() { let mut q = p.clone(); q.post.remove(k); cands.push(q); }
        for k in 0..p.pre.len() { let mut q = p.clone(); q.pre.remove(k); cands.push(q); }
        for t in 0..p.threads.len() { if !p.threads[t].is_empty() { let mut q = p.clone(); q.threads[t].clear(); cands.push(q); } }
        for t in 0..p.threads.len() { for k in 0..p.threads[t].len() { let mut q = p.clone(); q.threads[t].remove(k); cands.push(q); } }
        for i in 0..p.irqs.len() { for k in 0..p.irqs[i].calls.len() { let mut q = p.clone(); q.irqs[i].calls.remove(k); if !q.irqs[i].calls.is_empty() { cands.push(q); } } }
        for t in 0..p.threads.len() { for k in 0..p.threads[t].len() { if let Some(c) = &p.threads[t][k].clo { if c.nested.is_some() { let mut q = p.clone(); q.threads[t][k].clo.as_mut().unwrap().nested = None; cands.push(q); } } } }
        for q in cands {
            if Instant::now() > deadline { break; }
            if let Some((c2, v2)) = hunt(w, sc, &q, kind, Some(&ch), 400, f.seed) { p = q; ch = c2; v = v2; progress = true; break; }
        }
    }
    // 2. fewer scheduling decisions: zero out blocks of choices
    let mut step = ch.len().max(1) / 2;
    let mut nrec = if ch.is_empty() { 40 } else { run_once(w, &p, 0, Some(ch.clone()), &sc.eval).0.recs.len() };
    while step > 0 && Instant::now() < deadline {
        let mut i = 0;
        while i < ch.len() && Instant::now() < deadline {
            let e = (i + step).min(ch.len());
            if ch[i..e].iter().any(|x| *x != 0) {
                let mut c2 = ch.clone();
                c2[i..e].fill(0);
                let (run, v2) = run_once(w, &p, 0, Some(c2), &sc.eval);
                if let Some(v2) = v2 { if v2.kind == kind && (run.recs.len() <= nrec || run.recs.len() < 40) { nrec = run.recs.len(); ch = w.mem.ch.rec.clone(); v = v2; } }
            }
            i = e;
        }
        step /= 2;
    }
    while ch.last() == Some(&0) { ch.pop(); }
    // final, exact record
    w.mem.trace = Some(vec![]);
    let (run, v2) = run_once(w, &p, 0, Some(ch.clone()), &sc.eval);
    let trace = w.mem.trace.take().unwrap_or_default();
    if let Some(v2) = v2 { v = v2; }
    let dir = guest::root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.json", chk.id, tier, sc.name.replace(['/', ' '], "_")));
    let tl: Vec<J> = trace.iter().take(600).map(|s| J::Str(s.clone())).collect();
    let j = J::obj().set("property", chk.id).set("scenario", sc.name.as_str()).set("guest", sc.cfg.name).set("verif_seed", vs).set("run_index", f.index).set("seed", format!("{:#x}", f.seed)).set("kind", format!("{:?}", v.kind)).set("violation", v.msg.as_str()).set("violation_before_minimisation", first).set("program", prog_to_j(&p)).set("choices", ch.iter().map(|x| *x as u64).collect::<Vec<_>>()).set("history", recs_text(&run.recs)).set("finals", run.finals.clone()).set("trace", J::Arr(tl));
    let _ = std::fs::write(&path, j.text() + "\n");
    eprintln!("{}: {:?}: {}", chk.id, v.kind, v.msg);
    for h in recs_text(&run.recs) { eprintln!("   {}", h.str()); }
    path.display().to_string()
}
pub fn replay(checks: &dyn Fn(&str) -> Option<Check>, file: &str, verbose: bool) -> i32 {
    let Ok(t) = std::fs::read_to_string(file) else { eprintln!("cannot read {file}"); return 2 };
    let j = match J::parse(&t) { Ok(j) => j, Err(e) => { eprintln!("{e}"); return 2 } };
    let id = j.get("property").str().to_string();
    let Some(chk) = checks(&id) else { eprintln!("unknown property {id}"); return 2 };
    let Some(sc) = chk.scens.iter().find(|s| s.name == j.get("scenario").str()) else { eprintln!("unknown scenario"); return 2 };
    let Some(p) = prog_from_j(j.get("program")) else { eprintln!("bad program"); return 2 };
    let ch: Vec<u16> = j.get("choices").arr().iter().map(|x| x.int() as u16).collect();
    let (imgs, unbuilt) = build_all(&[sc.cfg.clone()]);
    if let Some((_, e)) = unbuilt.first() { eprintln!("{e}"); return 2; }
    let mut w = World::new(imgs[sc.cfg.name].clone());
    w.mem.trace = Some(if verbose { Vec::with_capacity(200_000) } else { vec![] });
    let (run, v) = run_once(&mut w, &p, 0, Some(ch), &sc.eval);
    for l in w.mem.trace.take().unwrap() { println!("{l}"); }
    for h in recs_text(&run.recs) { println!("{}", h.str()); }
    println!("final values: {:x?}", run.finals);
    match v {
        Some(v) => {
            println!("{:?}: {}", v.kind, v.msg);
            let same = v.msg == j.get("violation").str() && J::Arr(recs_text(&run.recs)).text() == j.get("history").text();
            println!("replay {} the recorded violation", if same { "reproduces exactly" } else { "differs from" });
            println!("VIOLATION property={id} replay={file}");
            1
        }
        None => { println!("no violation on this tree {}", run.inconclusive.unwrap_or_default()); 0 }
    }
}
/// The checks most properties share: everything finishes, panics exactly where documented, and
/// every object's history is linearizable with the observed final value.
pub fn std_eval(w: &World, p: &Prog, r: &Run, real_time: bool, finals: bool) -> Option<Viol> {
    if !r.finished && p.freeze.is_empty() {
        let pend: Vec<String> = r.recs.iter().filter(|x| x.out == Out::Pending).map(|x| format!("cpu{} {}", x.cpu, x.call.show())).collect();
        return Some(Viol { kind: Kind::Progress, msg: format!("operations never finish after faults stop: {}", pend.join("; ")) });
    }
    if let Some(v) = panics(r) { return Some(v); }
    if let Some(v) = layout(w, p, r) { return Some(v); }
    for (i, o) in p.objs.iter().enumerate() {
        let fin = if finals && r.recs.iter().all(|x| x.out != Out::Pending) { Some(r.finals[i]) } else { None };
        if let Err(m) = crate::lin::check(&w.sem, &r.recs, i, o.init, fin, real_time) { return Some(Viol { kind: Kind::Lin, msg: m }); }
    }
    None
}
/// Size, alignment and address facts every run can check for free.
fn layout(w: &World, p: &Prog, r: &Run) -> Option<Viol> {
    for x in &r.recs {
        let Out::Done(q) = &x.out else { continue };
        let bad = match x.call.op {
            Op::LockFree => { let t = q.text.as_ref()?; let s = w.size(x.call.ty) as u8; t[1] == 1 && t[0] != 1 || t[2] != s || t[3] != s || t[0] > 1 || t[1] > 1 }
            Op::AsPtr => q.val != (w.mem.lay.obj + p.objs[x.call.obj].off) as u128,
            _ => false,
        };
        if bad { return Some(Viol { kind: Kind::Other, msg: format!("{} returned {q:x?}", x.call.show()) }); }
    }
    None
}
pub fn panics(r: &Run) -> Option<Viol> {
    for x in &r.recs {
        let valid = valid_ord(x.call.op, x.call.o1, x.call.o2);
        match &x.out {
            Out::Panicked if valid => return Some(Viol { kind: Kind::Panic, msg: format!("{} panicked", x.call.show()) }),
            Out::Done(_) if !valid && !x.call.op.exclusive() && !matches!(x.call.op, Op::AsPtr | Op::LockFree | Op::Spin) => return Some(Viol { kind: Kind::Order, msg: format!("{} returned although the ordering is invalid", x.call.show()) }),
            Out::CloPanicked if !valid => {}
            _ => {}
        }
    }
    None
}
