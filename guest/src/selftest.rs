//! General computations, the same on every target, by which the instruction emulators are compared
//! with the host processor (`pasim selftest`). They have nothing to do with portable-atomic.
#![allow(clippy::all)]
#[allow(unused_imports)]
use core::sync::atomic::*;

pub const N: usize = 44;
type X = [u64; 16];
#[inline(always)]
fn w(x: &X, i: usize) -> u128 { x[i] as u128 | (x[i + 1] as u128) << 64 }
#[inline(always)]
fn put(x: &mut X, i: usize, v: u128) { x[i] = v as u64; x[i + 1] = (v >> 64) as u64; }
#[inline(never)]
fn c32(v: f32) -> u32 { if v.is_nan() { 0x7fc0_0000 } else if v == 0.0 { 0 } else { v.to_bits() } }
#[inline(never)]
fn c64(v: f64) -> u64 { if v.is_nan() { 0x7ff8 << 48 } else if v == 0.0 { 0 } else { v.to_bits() } }

macro_rules! ints { ($x:ident, $t:ty, $s:ty) => {{
    let (a, b, c) = ($x[0] as $t, $x[1] as $t, $x[2] as u32);
    let (sa, sb) = (a as $s, b as $s);
    let mut h: u64 = 0;
    let mut add = |v: u64| h = h.rotate_left(7) ^ v.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    add(a.wrapping_add(b) as u64); add(a.wrapping_sub(b) as u64); add(a.wrapping_mul(b) as u64);
    add((a & b) as u64); add((a | b) as u64); add((a ^ !b) as u64); add(a.wrapping_neg() as u64);
    add(a.wrapping_shl(c) as u64); add(a.wrapping_shr(c) as u64); add(sa.wrapping_shr(c) as u64);
    add(a.rotate_left(c & 127) as u64); add(a.rotate_right(c & 63) as u64);
    add(a.leading_zeros() as u64); add(a.trailing_zeros() as u64); add(a.count_ones() as u64);
    add(a.swap_bytes() as u64); add(a.reverse_bits() as u64);
    add(a.max(b) as u64); add(a.min(b) as u64); add(sa.max(sb) as u64); add(sa.min(sb) as u64);
    add((a < b) as u64); add((sa < sb) as u64); add((a <= b) as u64 + 2 * (sa <= sb) as u64); add((a == b) as u64);
    add(a.saturating_add(b) as u64); add(sa.saturating_sub(sb) as u64); add(a.saturating_sub(b) as u64); add(sa.saturating_add(sb) as u64);
    add(a.overflowing_add(b).1 as u64); add(sa.overflowing_add(sb).1 as u64); add(sa.overflowing_sub(sb).1 as u64); add(sa.overflowing_mul(sb).1 as u64);
    add(a.checked_mul(b).map_or(7, |v| v as u64)); add(sa.wrapping_abs() as u64); add(sa.signum() as u64);
    if b != 0 { add((a / b) as u64); add((a % b) as u64); add(sa.wrapping_div(sb) as u64); add(sa.wrapping_rem(sb) as u64); }
    add((a / 10) as u64); add((a % 7) as u64); add((sa / 11) as u64); add((sa % 16) as u64);
    add(sa as i64 as u64); add(a as u64); add(sa as i32 as u32 as u64);
    $x[3] = h;
}}; }

#[inline(never)]
fn mixed(x: &X, k: u32) -> u64 {
    match k & 15 {
        0 => x[1], 1 => x[2].wrapping_add(5), 2 => x[3] ^ x[4], 3 => x[5].rotate_left(9), 4 => x[6].wrapping_mul(3), 5 => !x[7], 6 => x[8] >> 3, 7 => x[9] << 5,
        8 => x[10] | 1, 9 => x[11] & 0xff, 10 => x[12].wrapping_sub(x[1]), 11 => x[13].swap_bytes(), 12 => x[2] % 1000, 13 => (x[3] as i64 >> 7) as u64, 14 => x[4].leading_zeros() as u64, _ => 99,
    }
}
struct Buf<'a> { b: &'a mut [u8], n: usize }
impl core::fmt::Write for Buf<'_> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result { for c in s.bytes() { if self.n == self.b.len() { return Err(core::fmt::Error); } self.b[self.n] = c; self.n += 1; } Ok(()) }
}
fn fnv(b: &[u8]) -> u64 { let mut h = 0xcbf2_9ce4_8422_2325u64; for c in b { h = (h ^ *c as u64).wrapping_mul(0x100_0000_01b3); } h }

pub fn run(i: usize, x: &mut X) {
    match i {
        0 => ints!(x, u8, i8),
        1 => ints!(x, u16, i16),
        2 => ints!(x, u32, i32),
        3 => ints!(x, u64, i64),
        4 => { let (a, b) = (w(x, 0), w(x, 2)); put(x, 4, a.wrapping_add(b)); put(x, 6, a.wrapping_sub(b)); put(x, 8, a.wrapping_mul(b)); put(x, 10, a.wrapping_neg()); }
        5 => { let (a, b) = (w(x, 0), w(x, 2)); put(x, 4, a.max(b)); put(x, 6, a.min(b)); put(x, 8, (a as i128).max(b as i128) as u128); put(x, 10, (a as i128).min(b as i128) as u128); x[12] = (a < b) as u64 | ((a as i128) < b as i128) as u64 * 2 | (a == b) as u64 * 4 | (a >= b) as u64 * 8; }
        6 => { let (a, c) = (w(x, 0), x[2] as u32); put(x, 4, a.wrapping_shl(c)); put(x, 6, a.wrapping_shr(c)); put(x, 8, (a as i128).wrapping_shr(c) as u128); put(x, 10, a.rotate_left(c & 127)); x[12] = a.leading_zeros() as u64; x[13] = a.trailing_zeros() as u64; x[14] = a.count_ones() as u64; }
        7 => { let (a, b) = (w(x, 0), w(x, 2)); let b = if b == 0 { 3 } else { b >> (x[4] & 127) | 1 }; put(x, 4, a / b); put(x, 6, a % b); put(x, 8, (a as i128).wrapping_div(b as i128 | 1) as u128); put(x, 10, (a as i128).wrapping_rem(b as i128 | 1) as u128); }
        8 => { let (a, b) = (w(x, 0), w(x, 2)); put(x, 4, a.saturating_add(b)); put(x, 6, (a as i128).saturating_sub(b as i128) as u128); x[8] = a.overflowing_add(b).1 as u64 | ((a as i128).overflowing_add(b as i128).1 as u64) << 1 | (a.overflowing_mul(b).1 as u64) << 2 | (a.overflowing_sub(b).1 as u64) << 3; put(x, 10, a.swap_bytes()); put(x, 12, a.reverse_bits()); }
        9 => { for k in 0..16 { x[k & 7 | 8] ^= mixed(x, (x[0] >> (4 * k)) as u32); } }
        10 => { for a in 0..16 { for b in 0..15 - a { if x[b] > x[b + 1] { x.swap(b, b + 1); } } } }
        11 => { x.sort_unstable(); }
        12 => { x.sort_unstable_by(|a, b| (*b as i64).cmp(&(*a as i64))); x[0] ^= x.binary_search_by(|p| (x[3] as i64).cmp(&(*p as i64))).is_ok() as u64; }
        13 => { let mut s = 0u64; for (k, v) in x.iter().enumerate() { s = s.wrapping_add(v.wrapping_mul(k as u64 + 1)); } x[0] = s; x[1] = x.iter().fold(0, |a, v| a ^ v); x[2] = x.iter().map(|v| v & 0xff).sum::<u64>(); x[3] = x.iter().filter(|v| **v as i64 > 0).count() as u64; }
        14 => { let mut b = [0u8; 128]; for k in 0..16 { b[8 * k..8 * k + 8].copy_from_slice(&x[k].to_le_bytes()); } b.reverse(); let h = fnv(&b); let m = b.iter().copied().max().unwrap_or(0); let s: u32 = b.iter().map(|v| *v as u32).sum(); x[0] = h; x[1] = m as u64; x[2] = s as u64; x[3] = b.iter().position(|v| *v == 7).map_or(999, |p| p as u64); for v in &mut b { *v = v.wrapping_mul(3).rotate_left(1); } x[4] = fnv(&b); }
        15 => { let mut b = [0u16; 64]; for k in 0..64 { b[k] = (x[k / 4] >> (16 * (k % 4))) as u16; } let mut a = 0i32; for k in 0..64 { a = a.wrapping_add((b[k] as i16 as i32).wrapping_mul(b[63 - k] as i16 as i32)); } x[0] = a as u32 as u64; for v in &mut b { *v = (*v).min(5000) ^ (*v >> 3); } x[1] = b.iter().fold(1u64, |a, v| a.wrapping_mul(31).wrapping_add(*v as u64)); }
        16 => { let mut b = [0u32; 32]; for k in 0..32 { b[k] = (x[k / 2] >> (32 * (k % 2))) as u32; } for k in 0..32 { b[k] = b[k].rotate_left(5) ^ b[(k * 7) & 31].wrapping_add(k as u32); } x[0] = b.iter().map(|v| *v as u64).sum(); x[1] = b.iter().map(|v| *v as i32).max().unwrap_or(0) as i64 as u64; x[2] = b.iter().map(|v| *v as i32).min().unwrap_or(0) as i64 as u64; for k in 0..16 { x[k] ^= b[k] as u64 | (b[31 - k] as u64) << 32; } }
        17 => { let mut s = [x[0] | 1, x[1], x[2], x[3]]; for _ in 0..20 { let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9); let t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = s[3].rotate_left(45); x[4] ^= r; } x[5] = s[0]; }
        18 => { let mut a = x[0] | 1; let mut b = x[1] | 1; let mut n = 0u64; while b != 0 { let t = a % b; a = b; b = t; n += 1; } x[2] = a; x[3] = n; }
        #[cfg(target_has_atomic = "32")]
        19 => { let m = AtomicU32::new(x[0] as u32); for k in 1..16 { let v = x[k] as u32; let r = match k % 9 { 0 => m.fetch_add(v, Ordering::SeqCst), 1 => m.fetch_sub(v, Ordering::Acquire), 2 => m.fetch_and(v | 0xff00, Ordering::Release), 3 => m.fetch_or(v, Ordering::AcqRel), 4 => m.fetch_xor(v, Ordering::Relaxed), 5 => m.swap(v, Ordering::SeqCst), 6 => m.fetch_max(v, Ordering::SeqCst), 7 => m.fetch_min(v, Ordering::SeqCst), _ => m.fetch_nand(v, Ordering::SeqCst) }; x[k] ^= (r as u64) << 8; } x[0] = m.load(Ordering::SeqCst) as u64; }
        #[cfg(target_has_atomic = "8")]
        20 => { let m = AtomicU8::new(x[0] as u8); for k in 1..16 { let v = x[k] as u8; let r = match k % 9 { 0 => m.fetch_add(v, Ordering::SeqCst), 1 => m.fetch_sub(v, Ordering::Acquire), 2 => m.fetch_and(v, Ordering::Release), 3 => m.fetch_or(v, Ordering::AcqRel), 4 => m.fetch_xor(v, Ordering::Relaxed), 5 => m.swap(v, Ordering::SeqCst), 6 => m.fetch_max(v, Ordering::SeqCst), 7 => m.fetch_min(v, Ordering::SeqCst), _ => m.fetch_nand(v, Ordering::SeqCst) }; x[k] ^= (r as u64) << 8; } x[0] = m.load(Ordering::SeqCst) as u64; }
        #[cfg(target_has_atomic = "16")]
        21 => { let m = AtomicU16::new(x[0] as u16); for k in 1..16 { let v = x[k] as u16; let r = match m.compare_exchange(v, v.wrapping_add(1), Ordering::SeqCst, Ordering::Relaxed) { Ok(o) => o as u32, Err(o) => { m.store(v, Ordering::Release); o as u32 | 0x10000 } }; x[k] ^= (r as u64) << 8; } x[0] = m.load(Ordering::SeqCst) as u64; }
        #[cfg(not(target_arch = "msp430"))]
        22..=41 => more(i, x),
        _ => {}
    }
}
#[cfg(not(target_arch = "msp430"))]
fn more(i: usize, x: &mut X) {
    use core::fmt::Write;
    let f = |x: &X, k: usize| f64::from_bits(x[k]);
    let g = |x: &X, k: usize| f32::from_bits(x[k] as u32);
    match i {
        22 => { let (a, b) = (f(x, 0), f(x, 1)); x[2] = c64(a + b); x[3] = c64(a - b); x[4] = c64(a * b); x[5] = c64(a / b); x[6] = (a < b) as u64 | ((a <= b) as u64) << 1 | ((a == b) as u64) << 2 | ((a != b) as u64) << 3 | ((a > b) as u64) << 4 | ((a >= b) as u64) << 5; }
        23 => { let (a, b) = (g(x, 0), g(x, 1)); x[2] = c32(a + b) as u64; x[3] = c32(a - b) as u64; x[4] = c32(a * b) as u64; x[5] = c32(a / b) as u64; x[6] = (a < b) as u64 | ((a <= b) as u64) << 1 | ((a == b) as u64) << 2 | ((a != b) as u64) << 3 | ((a > b) as u64) << 4 | ((a >= b) as u64) << 5; }
        24 => { let a = f(x, 0); x[1] = a as i64 as u64; x[2] = a as u64; x[3] = a as i32 as u32 as u64; x[4] = a as u32 as u64; x[5] = a as u8 as u64; x[6] = a as i16 as u16 as u64; x[7] = c32(a as f32) as u64; put(x, 8, a as u128); put(x, 10, a as i128 as u128); }
        25 => { let a = g(x, 0); x[1] = a as i64 as u64; x[2] = a as u64; x[3] = a as i32 as u32 as u64; x[4] = a as u32 as u64; x[5] = a as i8 as u8 as u64; x[6] = a as u16 as u64; x[7] = c64(a as f64); }
        26 => { let a = w(x, 0); x[2] = c64(x[0] as f64); x[3] = c64(x[0] as i64 as f64); x[4] = c32(x[0] as f32) as u64; x[5] = c32(x[0] as i64 as f32) as u64; x[6] = c64(x[0] as u32 as f64); x[7] = c32(x[0] as i32 as f32) as u64; x[8] = c64(a as f64); x[9] = c32(a as i128 as f32) as u64; x[10] = c64(x[0] as i8 as f64); }
        27 => { let (a, b) = (f(x, 0), f(x, 1)); x[2] = c64(a.min(b)); x[3] = c64(a.max(b)); x[4] = c64(a.abs()); x[5] = c64(-a) ^ 1; x[6] = c64(a.copysign(b)); x[7] = a.is_nan() as u64 | (a.is_finite() as u64) << 1 | (a.is_sign_negative() as u64) << 2; x[8] = a.total_cmp(&b) as i8 as u8 as u64; x[9] = a.partial_cmp(&b).map_or(9, |o| o as i8 as u8 as u64); x[10] = c64(if a > b { a } else { b }); }
        28 => { let (a, b) = (g(x, 0), g(x, 1)); x[2] = c32(a.min(b)) as u64; x[3] = c32(a.max(b)) as u64; x[4] = c32(a.abs()) as u64; x[5] = c32(-a) as u64 ^ 1; x[6] = c32(a.copysign(b)) as u64; x[8] = a.total_cmp(&b) as i8 as u8 as u64; x[9] = a.partial_cmp(&b).map_or(9, |o| o as i8 as u8 as u64); x[10] = c32(if a < b { a } else { b }) as u64; x[11] = c32(a.clamp(-1.0, 1.0)) as u64; }
        29 => { let mut s = 0.0f64; let mut p = 1.0f64; for k in 0..16 { let v = (x[k] as i32) as f64 / 65536.0; s += v; p = p * 0.5 + v * v; } x[0] = c64(s); x[1] = c64(p); }
        30 => { let mut s = [0.0f32; 16]; for k in 0..16 { s[k] = (x[k] as i16) as f32; } for k in 0..16 { s[k] = s[k] * s[15 - k] + 1.5; } x[0] = c32(s.iter().fold(0.0, |a, v| a + *v)) as u64; for k in 1..16 { x[k] = c32(s[k]) as u64; } }
        31 => { let mut b = [0u8; 64]; let mut o = Buf { b: &mut b, n: 0 }; let _ = write!(o, "{} {:x}", x[0], x[1]); let n = o.n; x[2] = fnv(&b[..n]); x[3] = n as u64; }
        32 => { let mut b = [0u8; 64]; let mut o = Buf { b: &mut b, n: 0 }; let _ = write!(o, "{:?}", w(x, 0) as i128); let n = o.n; x[2] = fnv(&b[..n]); x[3] = n as u64; }
        33 => { let mut b = [0u8; 100]; let mut o = Buf { b: &mut b, n: 0 }; let _ = write!(o, "{:+08} {:#06b} {:?}", x[0] as i32, x[1] as u8, x[2] as i8); let n = o.n; x[2] = fnv(&b[..n]); x[3] = n as u64; }
        34 => { let mut b = [0u8; 64]; let mut o = Buf { b: &mut b, n: 0 }; let a = f(x, 0); let _ = write!(o, "{:e}", if a.is_nan() { 0.1 } else { a }); let n = o.n; x[2] = fnv(&b[..n]); x[3] = n as u64; }
        35 => { let mut b = [0u8; 64]; let mut o = Buf { b: &mut b, n: 0 }; let a = g(x, 0); let _ = write!(o, "{:e}", if a.is_nan() { 0.1 } else { a }); let n = o.n; x[2] = fnv(&b[..n]); x[3] = n as u64; }
        36 => { let mut b = [0u8; 20]; let mut v = x[0]; let mut n = 20; loop { n -= 1; b[n] = b'0' + (v % 10) as u8; v /= 10; if v == 0 { break; } } let s = core::str::from_utf8(&b[n..]).unwrap_or(""); x[1] = s.parse::<u64>().unwrap_or(0); x[2] = s.parse::<u32>().is_err() as u64; x[3] = s.parse::<u128>().unwrap_or(0) as u64; }
        37 => { let (a, b) = (w(x, 0), w(x, 2)); let t = (a as i128).wrapping_mul(b as i128); x[4] = ((t >> 64) as i128).signum() as u64; put(x, 6, (t as u128).isqrt()); x[8] = a.ilog2() as u64 & if a == 0 { 0 } else { !0 }; }
        38 => { let mut t = [(0u32, 0u8); 16]; for k in 0..16 { t[k] = (x[k] as u32, (x[k] >> 40) as u8); } t.sort_unstable_by_key(|v| (v.1, !v.0)); for k in 0..16 { x[k] = t[k].0 as u64 | (t[k].1 as u64) << 32; } }
        39 => { let mut st: [Option<u32>; 16] = [None; 16]; for k in 0..16 { if x[k] & 3 != 0 { st[(x[k] >> 8 & 15) as usize] = Some(x[k] as u32); } } for k in 0..16 { x[k] = match st[k] { Some(v) if v > 0x8000_0000 => v as u64 | 1 << 40, Some(v) => v as u64, None => !0 }; } }
        40 => { let (a, b) = x.split_at_mut(8); a.copy_from_slice(b); b.rotate_left(3); x.copy_within(2..9, 5); x[0] = (x[1..9] < x[2..10]) as u64; x[3] = (x[4..6] == x[5..7]) as u64; x[15] = x.iter().rev().take_while(|v| **v & 1 == 0).count() as u64; }
        41 => { let (a, b) = (x[0] as i64, x[1] as i64); x[2] = (a.midpoint(b)) as u64; x[3] = a.abs_diff(b); x[4] = x[0].abs_diff(x[1]); x[5] = a.rem_euclid(if b == 0 || b == -1 { 3 } else { b }) as u64; x[6] = a.div_euclid(if b == 0 || b == -1 { 3 } else { b }) as u64; x[7] = x[0].wrapping_pow(x[1] as u32 & 63); x[8] = x[0].isqrt(); x[9] = (x[0] as u32).next_power_of_two_or(x[1] as u32) as u64; }
        _ => {}
    }
}
trait Np2 { fn next_power_of_two_or(self, o: u32) -> u32; }
impl Np2 for u32 { fn next_power_of_two_or(self, o: u32) -> u32 { self.checked_next_power_of_two().unwrap_or(o) } }
