//! `pasim selftest CFG... `: runs general computations in a guest's emulator and on the host and compares.
use crate::{checks, configs, cpu::AnyCpu, guest, mem::Trap, util::Rng};
#[path = "../../guest/src/selftest.rs"]
mod selftest;

fn input(r: &mut Rng) -> [u64; 16] {
    let mut x = [0u64; 16];
    let mode = r.below(4);
    for v in x.iter_mut() {
        *v = match if mode == 3 { r.below(8) } else { mode * 3 } {
            0 => r.next(),
            1 => r.below(16),
            2 => (r.below(16)).wrapping_neg(),
            3 => r.next() >> r.below(64),
            4 => (r.next() as i64 >> r.below(64)) as u64,
            5 => 1u64.rotate_left(r.below(64) as u32).wrapping_sub(r.below(3)),
            6 => { let f = (r.next() as i32 as f64) * [1.0, 1e-3, 1e9, 1e-300][r.usize(4)]; if r.chance(0.3) { (f as f32).to_bits() as u64 } else { f.to_bits() } }
            _ => *r.pick(&[0, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x8000_0000, 0x3ff0 << 48, 0x3f80_0000, 1, 0x7fef_ffff_ffff_ffff, 0x0010 << 48, 0x43e0 << 48, 0xc3e0 << 48, 0x4f00_0000, 0x41e0 << 48]),
        };
    }
    x
}
/// Returns the number of differences.
pub fn run(name: &str, n: u64, seed: u64) -> usize {
    let mut cfg = configs::get(name);
    let mut feats: Vec<&'static str> = cfg.feats.to_vec();
    feats.push("selftest");
    cfg.feats = Box::leak(feats.into_boxed_slice());
    cfg.name = Box::leak(format!("st-{name}").into_boxed_str());
    let img = match guest::build(&cfg) { Ok(i) => i, Err(e) => { println!("{name}: {e}"); return 1; } };
    let (f, lay) = (img.syms["g_selftest"], img.lay);
    let mut m = img.mem();
    m.isolate = false;
    let mut r = Rng::new(seed);
    let mut bad = vec![0u64; selftest::N];
    let mut insns = 0u64;
    for k in 0..n * selftest::N as u64 {
        let i = (k % selftest::N as u64) as usize;
        if bad[i] > 0 { continue; }
        let x = input(&mut r);
        let mut want = x;
        selftest::run(i, &mut want);
        m.reset(1);
        m.cur = 0;
        for (j, v) in x.iter().enumerate() { m.poke(lay.obj + 8 * j as u64, 8, *v as u128); }
        m.poke(lay.obj + 0x100, 4, i as u128);
        let feat = checks::pick_feat(&cfg, checks::Feat::Full, &mut r);
        let mut c = AnyCpu::new(&img, &feat, 0);
        let sp = lay.stk + lay.stk_len - 0x40;
        c.start_call(&mut m, f, &[lay.obj, lay.obj + 0x100, lay.obj + 0x200], sp, img.ret_magic());
        m.cpus[0].plain = true;
        let mut err = None;
        let mut steps = 0u64;
        while c.pc() != img.ret_magic() {
            let pc = c.pc();
            m.cpus[0].budget = 1000;
            m.begin_insn();
            m.ifetch = pc;
            match c.step(&mut m) {
                Ok(()) => m.end_insn(),
                Err(Trap::Yield) => {}
                Err(Trap::Fault(a, w)) => { err = Some(format!("{w} ({a:#x}) at {}", img.whereis(pc))); break; }
                Err(Trap::Illegal(_, w)) => { err = Some(format!("{w} at {}", img.whereis(pc))); break; }
                Err(Trap::Abort(_, w)) => { err = Some(format!("{w} at {}", img.whereis(pc))); break; }
                Err(Trap::Unknown(_, w)) => { err = Some(format!("unknown: {w} at {}", img.whereis(pc))); break; }
            }
            if let Some(v) = m.viol.take() { err = Some(v); break; }
            steps += 1;
            if steps > 5_000_000 { err = Some(format!("does not end, at {}", img.whereis(pc))); break; }
            if pc >= lay.stub && pc < lay.stub + 0x100 { err = Some(format!("called host stub {:#x}", pc)); break; }
        }
        insns += steps;
        m.drain_all(0);
        let same = (0..16).all(|j| m.peek(lay.obj + 8 * j as u64, 8) as u64 == x[j]);
        if err.is_none() && !(same && (19..=21).contains(&i)) {
            // (19..=21 use core atomics and are compiled out where the target has none)
            if let Some(e) = c.check_saved(sp, 3) { err = Some(e); }
            for j in 0..16 { let v = m.peek(lay.obj + 8 * j as u64, 8) as u64; if v != want[j] && err.is_none() { err = Some(format!("word {j} is {v:#x}, the host says {:#x}", want[j])); } }
        }
        if let Some(e) = err { bad[i] += 1; println!("{name}: test {i}: {e}; input {:x?}", &x[..5]); }
    }
    let nb = bad.iter().filter(|x| **x > 0).count();
    println!("{name}: {} cases, {insns} instructions, {nb} tests differ", n * selftest::N as u64);
    nb
}
