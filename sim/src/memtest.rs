//! `pasim memtest`: litmus tests of the memory models themselves. For every test and model the outcome named has to be
//! reached in some run (`+`) or in none (`-`). Power also allows what is marked `.` in its column for 2+2w+lw, r+lw+fence and
//! z6.3+lw (the order of two writes to one location settled late); the model orders them when they leave their CPU.
use crate::mem::*;
use crate::util::Rng;

/// W<loc><val> store, V release store, R load, A acquire load (RCpc), Q acquire load (RCsc), X swap to val, F full fence,
/// L lwsync-like fence (all but store-load), I instruction barrier after a dependent branch.
/// Outcome: values read by R/A/Q/X in thread order, then the final values of x, y.
const TESTS: &[(&str, &str, &str, &str)] = &[
    // name, program, outcome, expectation in [sc, tso, weak, power]
    ("sb", "Wx1 Ry | Wy1 Rx", "00", "-+++"),
    ("sb+fences", "Wx1 F Ry | Wy1 F Rx", "00", "----"),
    ("sb+lw", "Wx1 L Ry | Wy1 L Rx", "00", "-+++"),
    ("sb+one", "Wx1 F Ry | Wy1 L Rx", "00", "-+++"),
    ("sb+rel-acq", "Vx1 Ay | Vy1 Ax", "00", "-+++"),
    ("sb+rel-rcsc", "Vx1 Qy | Vy1 Qx", "00", "-+-."),
    ("mp", "Wx1 Wy1 | Ry Rx", "10", "--++"),
    ("mp+lw+lw", "Wx1 L Wy1 | Ry L Rx", "10", "----"),
    ("mp+lw+i", "Wx1 L Wy1 | Ry I Rx", "10", "----"),
    ("mp+lw", "Wx1 L Wy1 | Ry Rx", "10", "--++"),
    ("mp+..lw", "Wx1 Wy1 | Ry L Rx", "10", "--++"),
    ("mp+rel+acq", "Wx1 Vy1 | Ay Rx", "10", "---."),
    ("corr", "Wx1 | Rx Rx", "10", "----"),
    ("coww", "Wx1 Wx2 | Rx Rx", "21", "----"),
    ("2+2w", "Wx1 Wy2 | Wy1 Wx2", ":11", "--++"),
    ("2+2w+lw", "Wx1 L Wy2 | Wy1 L Wx2", ":11", "---."),
    ("2+2w+fences", "Wx1 F Wy2 | Wy1 F Wx2", ":11", "----"),
    ("s+lw+lw", "Wx2 L Wy1 | Ry L Wx1", "1:21", "----"),
    ("r+fences", "Wx1 F Wy1 | Wy2 F Rx", "0:12", "----"),
    ("r+lw+fence", "Wx1 L Wy1 | Wy2 F Rx", "0:12", "---."),
    ("wrc", "Wx1 | Rx Wy1 | Ry Rx", "110", "--++"),
    ("wrc+lw+lw", "Wx1 | Rx L Wy1 | Ry L Rx", "110", "----"),
    ("wrc+i+i", "Wx1 | Rx I Wy1 | Ry I Rx", "110", "--.+"),
    ("wrc+lw+i", "Wx1 | Rx L Wy1 | Ry I Rx", "110", "----"),
    ("isa2+lw", "Wx1 L Wy1 | Ry L Wz1 | Rz L Rx", "110", "----"),
    ("rwc+lw", "Wx1 | Rx L Ry | Wy1 F Rx", "100", "---+"),
    ("rwc+fences", "Wx1 | Rx F Ry | Wy1 F Rx", "100", "----"),
    ("iriw+lw", "Wx1 | Wy1 | Rx L Ry | Ry L Rx", "1010", "---+"),
    ("iriw+i", "Wx1 | Wy1 | Rx I Ry | Ry I Rx", "1010", "---+"),
    ("iriw+fences", "Wx1 | Wy1 | Rx F Ry | Ry F Rx", "1010", "----"),
    ("iriw+one", "Wx1 | Wy1 | Rx F Ry | Ry L Rx", "1010", "---+"),
    ("iriw", "Wx1 | Wy1 | Rx Ry | Ry Rx", "1010", "--++"),
    ("z6.3+lw", "Wx1 L Wy1 | Wy2 L Wz1 | Rz L Rx", "10:12", "---."),
    ("swap", "Xx1 | Xx2", "00", "----"),
    ("swap+lost", "Xx1 Rx | Xx2", "001:2", "----"),
];
#[derive(Clone, Copy, PartialEq)]
enum K { W, V, R, A, Q, X, F, L, I }
fn parse(p: &str) -> Vec<Vec<(K, u64, u128)>> {
    p.split('|').map(|t| t.split_whitespace().map(|w| {
        let b = w.as_bytes();
        let k = match b[0] { b'W' => K::W, b'V' => K::V, b'R' => K::R, b'A' => K::A, b'Q' => K::Q, b'X' => K::X, b'F' => K::F, b'L' => K::L, _ => K::I };
        (k, b.get(1).map_or(0, |c| (*c - b'x') as u64 * 64), b.get(2).map_or(0, |c| (*c - b'0') as u128))
    }).collect()).collect()
}
pub fn run(n: u64, seed: u64) -> usize {
    let mut bad = 0;
    for (name, prog, want, exp) in TESTS {
        let th = parse(prog);
        let mut line = String::new();
        for (mi, e) in exp.chars().enumerate() {
            if e == '.' { line.push_str(&format!(" {:>9}", "")); continue; }
            let mut m = Mem::new(LAYOUT32);
            m.isolate = false;
            let mut seen = 0u64;
            for k in 0..n {
                let mut r = Rng::new(crate::util::hash64(&[seed, mi as u64, k]));
                m.model = [Model::Sc, Model::Tso, Model::Weak, Model::Weak][mi];
                m.fp = FaultP { p_drain: [0.05, 0.3, 0.6][r.usize(3)], p_stale: [0.1, 0.5, 0.9][r.usize(3)], p_scfail: 0.2, p_owned: [0.0, 0.3][r.usize(2)], cap: 1 + r.usize(4), nmca: mi == 3 };
                m.ch.reset(r.next(), None);
                m.reset(th.len());
                let a = |l: u64| LAYOUT32.obj + l;
                let mut pc = vec![0; th.len()];
                let mut out: Vec<Vec<u128>> = vec![vec![]; th.len()];
                let mut dr = vec![];
                while (0..th.len()).any(|i| pc[i] < th[i].len()) {
                    let c = r.usize(th.len());
                    m.cur = c;
                    if m.pending(c) > 0 && r.chance(m.fp.p_drain) { m.drainable(c, &mut dr); if !dr.is_empty() { let i = *r.pick(&dr); m.drain_one(c, i); continue; } }
                    if pc[c] >= th[c].len() { continue; }
                    let (k, l, v) = th[c][pc[c]];
                    m.cpus[c].budget = 1;
                    m.begin_insn();
                    match k {
                        K::W | K::V => m.store(a(l), 4, v, k == K::V, false).unwrap(),
                        K::R | K::A | K::Q => { let x = m.load(a(l), 4, LK { acq: match k { K::A => 1, K::Q => 2, _ => 0 }, ..LK::default() }).unwrap(); out[c].push(x); }
                        K::X => {
                            // load-exclusive, store-exclusive until it succeeds
                            let x = m.load(a(l), 4, LK { ex: true, ..LK::default() }).unwrap();
                            m.end_insn();
                            m.cpus[c].budget = 1;
                            m.begin_insn();
                            if !m.sc(a(l), 4, v, false).unwrap() { m.end_insn(); continue; }
                            out[c].push(x);
                        }
                        K::F => m.fence(true, true, true, true).unwrap(),
                        K::L => { m.fence(true, false, true, true).unwrap(); m.fence(true, true, false, true).unwrap(); }
                        K::I => { let t = m.load_time(); m.raise_bar(t); }
                    }
                    m.end_insn();
                    pc[c] += 1;
                }
                m.settle();
                let mut s: String = out.concat().iter().map(|x| format!("{x}")).collect();
                if let Some(f) = want.split(':').nth(1) { s.push(':'); for i in 0..f.len() as u64 { s.push_str(&format!("{}", m.peek(a(i * 64), 4))); } }
                if s == *want { seen += 1; }
            }
            let ok = (e == '+') == (seen > 0);
            if !ok { bad += 1; }
            line.push_str(&format!(" {:>8}{}", seen, if ok { ' ' } else { '!' }));
        }
        println!("{name:12} {prog:40} {want:8}{line}");
    }
    println!("{bad} unexpected");
    bad
}
