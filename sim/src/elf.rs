//! Minimal static ELF loader (32/64-bit, either endianness).
use std::collections::HashMap;

pub struct Elf { pub syms: HashMap<String, u64>, /// (address, bytes, memory size, read-only)
    pub segs: Vec<(u64, Vec<u8>, u64, bool)>, pub machine: u16, pub is64: bool, pub be: bool }

pub fn load(b: &[u8]) -> Result<Elf, String> {
    if b.len() < 64 || &b[..4] != b"\x7fELF" { return Err("not an ELF".into()); }
    let is64 = b[4] == 2;
    let be = b[5] == 2;
    let rd = |o: usize, n: usize| -> u64 {
        let mut v = 0u64;
        for i in 0..n { v |= (b[o + i] as u64) << (8 * if be { n - 1 - i } else { i }); }
        v
    };
    let machine = rd(18, 2) as u16;
    let (phoff, shoff, phes, phn, shes, shn) = if is64 {
        (rd(32, 8), rd(40, 8), rd(54, 2), rd(56, 2), rd(58, 2), rd(60, 2))
    } else {
        (rd(28, 4), rd(32, 4), rd(42, 2), rd(44, 2), rd(46, 2), rd(48, 2))
    };
    let mut segs = vec![];
    for i in 0..phn {
        let p = (phoff + i * phes) as usize;
        if rd(p, 4) != 1 { continue; }
        let (flags, off, va, fs, ms) = if is64 { (rd(p + 4, 4), rd(p + 8, 8), rd(p + 16, 8), rd(p + 32, 8), rd(p + 40, 8)) } else { (rd(p + 24, 4), rd(p + 4, 4), rd(p + 8, 4), rd(p + 16, 4), rd(p + 20, 4)) };
        segs.push((va, b[off as usize..(off + fs) as usize].to_vec(), ms, flags & 2 == 0));
    }
    let mut syms = HashMap::new();
    for i in 0..shn {
        let s = (shoff + i * shes) as usize;
        if rd(s + 4, 4) != 2 { continue; }
        let (off, size, link) = if is64 { (rd(s + 24, 8), rd(s + 32, 8), rd(s + 40, 4)) } else { (rd(s + 16, 4), rd(s + 20, 4), rd(s + 24, 4)) };
        let ss = (shoff + link * shes) as usize;
        let stroff = if is64 { rd(ss + 24, 8) } else { rd(ss + 16, 4) } as usize;
        let es = if is64 { 24 } else { 16 };
        for k in 0..size / es {
            let y = (off + k * es) as usize;
            let nm = stroff + rd(y, 4) as usize;
            let v = if is64 { rd(y + 8, 8) } else { rd(y + 4, 4) };
            let e = b[nm..].iter().position(|c| *c == 0).unwrap_or(0);
            if let Ok(n) = std::str::from_utf8(&b[nm..nm + e]) { if !n.is_empty() { syms.insert(n.to_string(), v); } }
        }
    }
    Ok(Elf { syms, segs, machine, is64, be })
}
