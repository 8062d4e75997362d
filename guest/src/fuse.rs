//! Operations compiled together with the plain accesses of their caller, with constant orderings, the way
//! user code has them: `m_<ty>_<op>` does `*w = v1; op; *w = v2; y0 = *r; op; y1 = *r`.
//! What the compiler may move or merge across the operation shows in what other CPUs (and interrupt handlers) see.
use super::{Obj, R};
use core::marker::PhantomData;
use core::sync::atomic::Ordering;
use portable_atomic::*;

pub trait Ord2 { const O1: Ordering; const O2: Ordering; }
pub struct K<const X: u8, const Y: u8>;
const fn ord(x: u8) -> Ordering {
    match x { 0 => Ordering::Relaxed, 1 => Ordering::Acquire, 2 => Ordering::Release, 3 => Ordering::AcqRel, _ => Ordering::SeqCst }
}
impl<const X: u8, const Y: u8> Ord2 for K<X, Y> { const O1: Ordering = ord(X); const O2: Ordering = ord(Y); }

#[derive(Clone, Copy)]
#[repr(C, align(16))]
struct Blk([u8; 64]);
struct A<'a, O>(&'a Blk, PhantomData<O>);
impl<O: Ord2> A<'_, O> {
    #[inline(always)]
    fn o1(&self) -> Ordering { O::O1 }
    #[inline(always)]
    fn o2(&self) -> Ordering { O::O2 }
    #[inline(always)]
    unsafe fn a<T: Copy>(&self) -> T { (self.0 .0.as_ptr().add(16) as *const T).read() }
    #[inline(always)]
    unsafe fn b<T: Copy>(&self) -> T { (self.0 .0.as_ptr().add(32) as *const T).read() }
}

macro_rules! fuse {
    ($n:ident, $ords:ident, $($op:ident, |$o:ident: $at:ty, $a:ident, $r:ident| $e:expr;)*) => {
        $(const _: () = {
            #[inline(always)]
            unsafe fn both<O: Ord2>(o: *mut u8, a: *const u8, r: *mut u8) {
                // everything but the two bytes and the atomic is local, so nothing else keeps the compiler from moving them
                let blk = (a as *const Blk).read();
                let (w, d) = (*(a.add(8) as *const *mut u8), *(a.add(48) as *const *const u8));
                let (v1, v2) = (blk.0[56], blk.0[57]);
                let (mut x, mut y) = (Blk([0xee; 64]), Blk([0xee; 64]));
                let one = |out: *mut u8| {
                    let $o: $at = <$at as Obj>::get(o);
                    let $a = A(&blk, PhantomData::<O>);
                    let $r = R(out);
                    $e
                };
                // two writes around an operation, then two reads around one: nothing between either pair but the operation
                w.write(v1);
                one(x.0.as_mut_ptr());
                w.write(v2);
                let y0 = d.read();
                one(y.0.as_mut_ptr());
                let y1 = d.read();
                let mut i = 0;
                while i < 17 {
                    r.add(i).write(x.0[i]);
                    r.add(32 + i).write(y.0[i]);
                    i += 1;
                }
                r.add(24).write(y0);
                r.add(25).write(y1);
            }
            #[export_name = concat!("m_", stringify!($n), "_", stringify!($op))]
            unsafe extern "C" fn f(o: *mut u8, a: *const u8, r: *mut u8) { $ords!(both, o, a, r) }
        };)*
    };
}
macro_rules! ld { ($f:ident, $o:ident, $a:ident, $r:ident) => { match $a.read() { 0 => $f::<K<0, 0>>($o, $a, $r), 1 => $f::<K<1, 1>>($o, $a, $r), _ => $f::<K<4, 4>>($o, $a, $r) } }; }
macro_rules! st { ($f:ident, $o:ident, $a:ident, $r:ident) => { match $a.read() { 0 => $f::<K<0, 0>>($o, $a, $r), 2 => $f::<K<2, 0>>($o, $a, $r), _ => $f::<K<4, 4>>($o, $a, $r) } }; }
macro_rules! rm { ($f:ident, $o:ident, $a:ident, $r:ident) => { match $a.read() { 0 => $f::<K<0, 0>>($o, $a, $r), 1 => $f::<K<1, 1>>($o, $a, $r), 2 => $f::<K<2, 0>>($o, $a, $r), 3 => $f::<K<3, 1>>($o, $a, $r), _ => $f::<K<4, 4>>($o, $a, $r) } }; }
macro_rules! fe { ($f:ident, $o:ident, $a:ident, $r:ident) => { match $a.read() { 1 => $f::<K<1, 1>>($o, $a, $r), 2 => $f::<K<2, 0>>($o, $a, $r), 3 => $f::<K<3, 1>>($o, $a, $r), _ => $f::<K<4, 4>>($o, $a, $r) } }; }
#[cfg(feature = "cas")]
macro_rules! cx { ($f:ident, $o:ident, $a:ident, $r:ident) => { match ($a.read(), $a.add(1).read()) {
    (0, 0) => $f::<K<0, 0>>($o, $a, $r), (0, 1) => $f::<K<0, 1>>($o, $a, $r), (0, _) => $f::<K<0, 4>>($o, $a, $r),
    (1, 0) => $f::<K<1, 0>>($o, $a, $r), (1, 1) => $f::<K<1, 1>>($o, $a, $r), (1, _) => $f::<K<1, 4>>($o, $a, $r),
    (2, 0) => $f::<K<2, 0>>($o, $a, $r), (2, 1) => $f::<K<2, 1>>($o, $a, $r), (2, _) => $f::<K<2, 4>>($o, $a, $r),
    (3, 0) => $f::<K<3, 0>>($o, $a, $r), (3, 1) => $f::<K<3, 1>>($o, $a, $r), (3, _) => $f::<K<3, 4>>($o, $a, $r),
    (_, 0) => $f::<K<4, 0>>($o, $a, $r), (_, 1) => $f::<K<4, 1>>($o, $a, $r), (_, _) => $f::<K<4, 4>>($o, $a, $r),
} }; }
macro_rules! base {
    ($n:ident, $At:ty, $T:ty) => {
        fuse! { $n, ld, load, |o: &$At, a, r| r.put(o.load(a.o1())); }
        fuse! { $n, st, store, |o: &$At, a, r| { let _ = &r; o.store(a.a::<$T>(), a.o1()) }; }
        #[cfg(feature = "cas")]
        fuse! { $n, cx,
            cas, |o: &$At, a, r| r.res(o.compare_exchange(a.a::<$T>(), a.b::<$T>(), a.o1(), a.o2()));
            casw, |o: &$At, a, r| r.res(o.compare_exchange_weak(a.a::<$T>(), a.b::<$T>(), a.o1(), a.o2()));
        }
        #[cfg(feature = "cas")]
        fuse! { $n, rm, swap, |o: &$At, a, r| r.put(o.swap(a.a::<$T>(), a.o1())); }
    };
}
macro_rules! int {
    ($n:ident, $At:ty, $T:ty) => {
        base!($n, $At, $T);
        #[cfg(feature = "amo8")]
        fuse! { $n, rm,
            fetch_add, |o: &$At, a, r| r.put(o.fetch_add(a.a::<$T>(), a.o1()));
            fetch_or, |o: &$At, a, r| r.put(o.fetch_or(a.a::<$T>(), a.o1()));
            fetch_not, |o: &$At, a, r| r.put(o.fetch_not(a.o1()));
            add, |o: &$At, a, r| { let _ = &r; o.add(a.a::<$T>(), a.o1()) };
            sub, |o: &$At, a, r| { let _ = &r; o.sub(a.a::<$T>(), a.o1()) };
            or, |o: &$At, a, r| { let _ = &r; o.or(a.a::<$T>(), a.o1()) };
            and, |o: &$At, a, r| { let _ = &r; o.and(a.a::<$T>(), a.o1()) };
            xor, |o: &$At, a, r| { let _ = &r; o.xor(a.a::<$T>(), a.o1()) };
            not, |o: &$At, a, r| { let _ = (&r, &a); o.not(a.o1()) };
            bit_set, |o: &$At, a, r| r.put(o.bit_set(a.a::<u32>(), a.o1()) as u8);
        }
        #[cfg(all(feature = "amo8", not(any(target_arch = "msp430", target_arch = "avr"))))]
        fuse! { $n, rm,
            fetch_sub, |o: &$At, a, r| r.put(o.fetch_sub(a.a::<$T>(), a.o1()));
            fetch_and, |o: &$At, a, r| r.put(o.fetch_and(a.a::<$T>(), a.o1()));
            fetch_xor, |o: &$At, a, r| r.put(o.fetch_xor(a.a::<$T>(), a.o1()));
            bit_clear, |o: &$At, a, r| r.put(o.bit_clear(a.a::<u32>(), a.o1()) as u8);
            bit_toggle, |o: &$At, a, r| r.put(o.bit_toggle(a.a::<u32>(), a.o1()) as u8);
        }
        #[cfg(all(feature = "cas", not(any(target_arch = "msp430", target_arch = "avr"))))]
        fuse! { $n, rm, fetch_min, |o: &$At, a, r| r.put(o.fetch_min(a.a::<$T>(), a.o1())); }
        #[cfg(feature = "cas")]
        fuse! { $n, rm,
            fetch_nand, |o: &$At, a, r| r.put(o.fetch_nand(a.a::<$T>(), a.o1()));
            fetch_max, |o: &$At, a, r| r.put(o.fetch_max(a.a::<$T>(), a.o1()));
            fetch_neg, |o: &$At, a, r| r.put(o.fetch_neg(a.o1()));
            neg, |o: &$At, a, r| { let _ = (&r, &a); o.neg(a.o1()) };
        }
    };
}
int!(u8, AtomicU8, u8);
int!(u16, AtomicU16, u16);
int!(u32, AtomicU32, u32);
#[cfg(feature = "a64")]
int!(u64, AtomicU64, u64);
#[cfg(feature = "a128")]
int!(u128, AtomicU128, u128);
base!(ptr, AtomicPtr<u8>, *mut u8);
#[cfg(feature = "amo32")]
fuse! { ptr, rm,
    fetch_byte_add, |o: &AtomicPtr<u8>, a, r| r.put(o.fetch_byte_add(a.a::<usize>(), a.o1()));
    fetch_or, |o: &AtomicPtr<u8>, a, r| r.put(o.fetch_or(a.a::<usize>(), a.o1()));
}
macro_rules! float {
    ($n:ident, $At:ty, $T:ty) => {
        base!($n, $At, $T);
        #[cfg(all(feature = "cas", not(target_arch = "avr")))]
        fuse! { $n, rm,
            fetch_add, |o: &$At, a, r| r.put(o.fetch_add(a.a::<$T>(), a.o1()));
            fetch_max, |o: &$At, a, r| r.put(o.fetch_max(a.a::<$T>(), a.o1()));
        }
    };
}
#[cfg(not(target_arch = "msp430"))]
float!(f32, AtomicF32, f32);
#[cfg(feature = "a64")]
#[cfg(not(target_arch = "msp430"))]
float!(f64, AtomicF64, f64);
macro_rules! b { ($a:expr) => { ($a.a::<u8>() & 1) != 0 }; }
fuse! { bool, ld, load, |o: &AtomicBool, a, r| r.put(o.load(a.o1()) as u8); }
fuse! { bool, st, store, |o: &AtomicBool, a, r| { let _ = &r; o.store(b!(a), a.o1()) }; }
#[cfg(feature = "amo32")]
fuse! { bool, rm,
    swap, |o: &AtomicBool, a, r| r.put(o.swap(b!(a), a.o1()) as u8);
    fetch_xor, |o: &AtomicBool, a, r| r.put(o.fetch_xor(b!(a), a.o1()) as u8);
    fetch_or, |o: &AtomicBool, a, r| r.put(o.fetch_or(b!(a), a.o1()) as u8);
    not, |o: &AtomicBool, a, r| { let _ = (&r, &a); o.not(a.o1()) };
}
fuse! { misc, fe, fence, |o: *mut u8, a, r| { let _ = (&r, o); portable_atomic::fence(a.o1()) }; }

/// Waits until the atomic holds something else.
macro_rules! wait {
    ($n:ident, $At:ty, $T:ty) => {
        const _: () = {
            #[inline(always)]
            unsafe fn until<O: Ord2>(o: *mut u8, a: *const u8, r: *mut u8) {
                let x = &*(o as *const $At);
                let want = (a.add(16) as *const $T).read();
                loop {
                    let v = x.load(O::O1);
                    if v != want { (r as *mut $T).write(v); break; }
                }
            }
            #[export_name = concat!("g_", stringify!($n), "_wait")]
            unsafe extern "C" fn f(o: *mut u8, a: *const u8, r: *mut u8) { ld!(until, o, a, r) }
        };
    };
}
wait!(u8, AtomicU8, u8);
wait!(u16, AtomicU16, u16);
wait!(u32, AtomicU32, u32);
#[cfg(feature = "a64")]
wait!(u64, AtomicU64, u64);
#[cfg(feature = "a128")]
wait!(u128, AtomicU128, u128);
wait!(ptr, AtomicPtr<u8>, *mut u8);
