//! Guest code: thin wrappers that expose portable-atomic's public API to the simulator
//! under a uniform ABI `fn(obj, args, out)`. Nothing here implements any operation itself.
#![no_std]
#![cfg_attr(feature = "sim-f16", feature(f16, f128))]
#![allow(clippy::missing_safety_doc, non_camel_case_types, unused_macros, unused_imports, unused_variables, dead_code)]

use portable_atomic::*;
use core::sync::atomic::Ordering;

extern "C" {
    fn host_panic() -> !;
    fn host_closure(args: *const u8, old: *const u8, new: *mut u8) -> u32;
    fn host_sink(args: *const u8, buf: *const u8, len: usize) -> u32;
    fn host_source(args: *const u8, out: *mut u8) -> u32;
}

#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! {
    unsafe { host_panic() }
}

// Byte-wise memory routines (targets without a libc).
#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    let mut i = 0;
    while i < n { d.add(i).write_volatile(s.add(i).read_volatile()); i += 1; }
    d
}
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if (d as usize) < (s as usize) {
        let mut i = 0;
        while i < n { d.add(i).write_volatile(s.add(i).read_volatile()); i += 1; }
    } else {
        let mut i = n;
        while i > 0 { i -= 1; d.add(i).write_volatile(s.add(i).read_volatile()); }
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn memset(d: *mut u8, c: core::ffi::c_int, n: usize) -> *mut u8 {
    let mut i = 0;
    while i < n { d.add(i).write_volatile(c as u8); i += 1; }
    d
}
#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> core::ffi::c_int {
    let mut i = 0;
    while i < n {
        let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
        if x != y { return x as core::ffi::c_int - y as core::ffi::c_int; }
        i += 1;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> core::ffi::c_int { memcmp(a, b, n) }

#[derive(Clone, Copy)]
pub struct A(*const u8);
impl A {
    #[inline(always)]
    fn ord(x: u8) -> Ordering {
        match x {
            0 => Ordering::Relaxed,
            1 => Ordering::Acquire,
            2 => Ordering::Release,
            3 => Ordering::AcqRel,
            _ => Ordering::SeqCst,
        }
    }
    #[inline(always)]
    unsafe fn o1(self) -> Ordering { Self::ord(self.0.read()) }
    #[inline(always)]
    unsafe fn o2(self) -> Ordering { Self::ord(self.0.add(1).read()) }
    #[inline(always)]
    unsafe fn a<T: Copy>(self) -> T { (self.0.add(16) as *const T).read() }
    #[inline(always)]
    unsafe fn b<T: Copy>(self) -> T { (self.0.add(32) as *const T).read() }
}
#[derive(Clone, Copy)]
pub struct R(*mut u8);
impl R {
    #[inline(always)]
    unsafe fn put<T>(self, v: T) { (self.0 as *mut T).write(v) }
    #[inline(always)]
    unsafe fn flag(self, v: bool) { self.0.add(16).write(v as u8) }
    #[inline(always)]
    unsafe fn res<T>(self, v: Result<T, T>) {
        match v {
            Ok(v) => { self.put(v); self.flag(true) }
            Err(v) => { self.put(v); self.flag(false) }
        }
    }
}

// ex!{ ty, op, Atomic, |o, a, r| expr }
macro_rules! ex {
    ($n:ident, $($rest:tt)*) => { ex2!{ stringify!($n), $($rest)* } };
}
macro_rules! ex2 {
    ($n:expr, $($op:ident, |$o:ident: $at:ty, $a:ident, $r:ident| $e:expr;)*) => {
        $(const _: () = {
            #[export_name = concat!("g_", $n, "_", stringify!($op))]
            unsafe extern "C" fn f(o: *mut u8, a: *const u8, r: *mut u8) {
                let $o: $at = <$at as Obj>::get(o);
                let $a = A(a);
                let $r = R(r);
                $e
            }
            // the same on a local the compiler knows everything about, moved in and out around it
            #[export_name = concat!("z_", $n, "_", stringify!($op))]
            unsafe extern "C" fn z(p: *mut u8, a: *const u8, r: *mut u8) {
                let mut x = take::<$at>(p);
                {
                    let $o: $at = <$at as Obj>::get(&mut x as *mut _ as *mut u8);
                    let $a = A(a);
                    let $r = R(r);
                    $e
                }
                give::<$at>(p, x);
            }
        };)*
    };
}
#[inline(always)]
unsafe fn take<T: Obj>(p: *mut u8) -> core::mem::ManuallyDrop<T::In> { core::mem::ManuallyDrop::new((p as *const T::In).read()) }
#[inline(always)]
unsafe fn give<T: Obj>(p: *mut u8, x: core::mem::ManuallyDrop<T::In>) { (p as *mut T::In).write(core::mem::ManuallyDrop::into_inner(x)) }
trait Obj { type In; unsafe fn get(p: *mut u8) -> Self; }
impl<T> Obj for &T { type In = T; #[inline(always)] unsafe fn get(p: *mut u8) -> Self { &*(p as *const T) } }
impl<T> Obj for &mut T { type In = T; #[inline(always)] unsafe fn get(p: *mut u8) -> Self { &mut *(p as *mut T) } }
impl<T> Obj for *mut T { type In = T; #[inline(always)] unsafe fn get(p: *mut u8) -> Self { p as *mut T } }

/// Calls the simulator's closure. Returns the new value or None.
#[inline(always)]
unsafe fn clo<T: Copy>(a: A, old: T) -> Option<T> {
    let mut n = core::mem::MaybeUninit::<T>::uninit();
    if host_closure(a.0, &old as *const T as *const u8, n.as_mut_ptr() as *mut u8) != 0 { Some(n.assume_init()) } else { None }
}
#[inline(always)]
unsafe fn clo_bool(a: A, old: bool) -> Option<bool> {
    clo::<u8>(a, old as u8).map(|x| x & 1 != 0)
}

/// One element with the layout of the atomic; used to move values in and out.
macro_rules! layout {
    ($n:ident, $At:ty, $T:ty) => {
        const _: () = {
            // [size, align, is_always_lock_free, is_lock_free()] at run time
            #[export_name = concat!("g_", stringify!($n), "_lockfree")]
            unsafe extern "C" fn f(_o: *mut u8, _a: *const u8, r: *mut u8) {
                r.write(<$At>::is_lock_free() as u8);
                r.add(1).write(<$At>::is_always_lock_free() as u8);
                r.add(2).write(core::mem::size_of::<$At>() as u8);
                r.add(3).write(core::mem::align_of::<$At>() as u8);
            }
        };
        ex! { $n,
            load, |o: &$At, a, r| r.put(o.load(a.o1()));
            store, |o: &$At, a, r| o.store(a.a::<$T>(), a.o1());
            fp_load, |o: *mut $T, a, r| r.put(<$At>::from_ptr(o).load(a.o1()));
            fp_store, |o: *mut $T, a, r| <$At>::from_ptr(o).store(a.a::<$T>(), a.o1());
            new, |o: *mut $At, a, r| o.write(<$At>::new(a.a::<$T>()));
            from, |o: *mut $At, a, r| o.write(<$At as From<$T>>::from(a.a::<$T>()));
            default, |o: *mut $At, a, r| o.write(<$At as Default>::default());
            get_mut_read, |o: &mut $At, a, r| r.put(*o.get_mut());
            get_mut_write, |o: &mut $At, a, r| *o.get_mut() = a.a::<$T>();
            into_inner, |o: *mut $At, a, r| r.put(o.read().into_inner());
            as_ptr, |o: &$At, a, r| r.put(o.as_ptr() as usize);
            raw_read, |o: &$At, a, r| r.put(o.as_ptr().read());
            raw_write, |o: &$At, a, r| o.as_ptr().write(a.a::<$T>());
        }
        #[cfg(feature = "fmt")]
        ex! { $n,
            debug, |o: &$At, a, r| debug_to(a, r, o);
        }
        #[cfg(feature = "cas")]
        ex! { $n,
            swap, |o: &$At, a, r| r.put(o.swap(a.a::<$T>(), a.o1()));
            cas, |o: &$At, a, r| r.res(o.compare_exchange(a.a::<$T>(), a.b::<$T>(), a.o1(), a.o2()));
            casw, |o: &$At, a, r| r.res(o.compare_exchange_weak(a.a::<$T>(), a.b::<$T>(), a.o1(), a.o2()));
            fp_swap, |o: *mut $T, a, r| r.put(<$At>::from_ptr(o).swap(a.a::<$T>(), a.o1()));
            fp_cas, |o: *mut $T, a, r| r.res(<$At>::from_ptr(o).compare_exchange(a.a::<$T>(), a.b::<$T>(), a.o1(), a.o2()));
        }
    };
}
#[cfg(feature = "sim-serde")]
macro_rules! serde_ops {
    ($n:ident, $At:ty) => {
        ex! { $n,
            ser, |o: &$At, a, r| ser::ser(a, r, o);
            de, |o: *mut $At, a, r| ser::de::<$At>(a, r, o);
        }
    };
}
#[cfg(not(feature = "sim-serde"))]
macro_rules! serde_ops { ($($t:tt)*) => {}; }

macro_rules! int_bit {
    ($n:ident, $At:ty, $T:ty) => {
        ex! { $n,
            fetch_and, |o: &$At, a, r| r.put(o.fetch_and(a.a::<$T>(), a.o1()));
            fetch_or, |o: &$At, a, r| r.put(o.fetch_or(a.a::<$T>(), a.o1()));
            fetch_xor, |o: &$At, a, r| r.put(o.fetch_xor(a.a::<$T>(), a.o1()));
            fetch_not, |o: &$At, a, r| r.put(o.fetch_not(a.o1()));
            and, |o: &$At, a, r| o.and(a.a::<$T>(), a.o1());
            or, |o: &$At, a, r| o.or(a.a::<$T>(), a.o1());
            xor, |o: &$At, a, r| o.xor(a.a::<$T>(), a.o1());
            not, |o: &$At, a, r| o.not(a.o1());
            bit_set, |o: &$At, a, r| r.put(o.bit_set(a.a::<u32>(), a.o1()) as u8);
            bit_clear, |o: &$At, a, r| r.put(o.bit_clear(a.a::<u32>(), a.o1()) as u8);
            bit_toggle, |o: &$At, a, r| r.put(o.bit_toggle(a.a::<u32>(), a.o1()) as u8);
        }
    };
}
macro_rules! int_arith {
    ($n:ident, $At:ty, $T:ty) => {
        ex! { $n,
            fetch_add, |o: &$At, a, r| r.put(o.fetch_add(a.a::<$T>(), a.o1()));
            fetch_sub, |o: &$At, a, r| r.put(o.fetch_sub(a.a::<$T>(), a.o1()));
            add, |o: &$At, a, r| o.add(a.a::<$T>(), a.o1());
            sub, |o: &$At, a, r| o.sub(a.a::<$T>(), a.o1());
            fetch_max, |o: &$At, a, r| r.put(o.fetch_max(a.a::<$T>(), a.o1()));
            fetch_min, |o: &$At, a, r| r.put(o.fetch_min(a.a::<$T>(), a.o1()));
        }
    };
}
macro_rules! int_cas {
    ($n:ident, $At:ty, $T:ty) => {
        ex! { $n,
            fetch_nand, |o: &$At, a, r| r.put(o.fetch_nand(a.a::<$T>(), a.o1()));
            fetch_neg, |o: &$At, a, r| r.put(o.fetch_neg(a.o1()));
            neg, |o: &$At, a, r| o.neg(a.o1());
            fetch_update, |o: &$At, a, r| r.res(o.fetch_update(a.o1(), a.o2(), |x| clo(a, x)));
            fp_fetch_add, |o: *mut $T, a, r| r.put(<$At>::from_ptr(o).fetch_add(a.a::<$T>(), a.o1()));
        }
    };
}
macro_rules! int {
    ($n:ident, $At:ty, $T:ty) => {
        layout!($n, $At, $T);
        serde_ops!($n, $At);
        #[cfg(feature = "amo32")]
        int_bit!($n, $At, $T);
        #[cfg(feature = "amo32")]
        int_arith!($n, $At, $T);
        #[cfg(feature = "cas")]
        int_cas!($n, $At, $T);
        #[cfg(not(feature = "cas"))]
        #[cfg(feature = "amo32")]
        ex! { $n, swap, |o: &$At, a, r| r.put(o.swap(a.a::<$T>(), a.o1())); }
    };
    (sub $n:ident, $At:ty, $T:ty) => {
        layout!($n, $At, $T);
        serde_ops!($n, $At);
        #[cfg(feature = "amo32")]
        int_bit!($n, $At, $T);
        #[cfg(feature = "amo8")]
        int_arith!($n, $At, $T);
        #[cfg(feature = "cas")]
        int_cas!($n, $At, $T);
        #[cfg(not(feature = "cas"))]
        #[cfg(feature = "amo8")]
        ex! { $n, swap, |o: &$At, a, r| r.put(o.swap(a.a::<$T>(), a.o1())); }
    };
}
int!(sub i8, AtomicI8, i8);
int!(sub u8, AtomicU8, u8);
int!(sub i16, AtomicI16, i16);
int!(sub u16, AtomicU16, u16);
int!(i32, AtomicI32, i32);
int!(u32, AtomicU32, u32);
#[cfg(feature = "a64")]
int!(i64, AtomicI64, i64);
#[cfg(feature = "a64")]
int!(u64, AtomicU64, u64);
#[cfg(feature = "a128")]
int!(i128, AtomicI128, i128);
#[cfg(feature = "a128")]
int!(u128, AtomicU128, u128);
int!(isize, AtomicIsize, isize);
int!(usize, AtomicUsize, usize);

macro_rules! float {
    ($n:ident, $At:ty, $T:ty, $B:ty) => {
        layout!($n, $At, $T);
        serde_ops!($n, $At);
        #[cfg(feature = "amo32")]
        ex! { $n,
            fetch_neg, |o: &$At, a, r| r.put(o.fetch_neg(a.o1()));
            fetch_abs, |o: &$At, a, r| r.put(o.fetch_abs(a.o1()));
        }
        #[cfg(feature = "cas")]
        ex! { $n,
            fetch_add, |o: &$At, a, r| r.put(o.fetch_add(a.a::<$T>(), a.o1()));
            fetch_sub, |o: &$At, a, r| r.put(o.fetch_sub(a.a::<$T>(), a.o1()));
            fetch_max, |o: &$At, a, r| r.put(o.fetch_max(a.a::<$T>(), a.o1()));
            fetch_min, |o: &$At, a, r| r.put(o.fetch_min(a.a::<$T>(), a.o1()));
            fetch_update, |o: &$At, a, r| r.res(o.fetch_update(a.o1(), a.o2(), |x| clo(a, x)));
            fp_fetch_add, |o: *mut $T, a, r| r.put(<$At>::from_ptr(o).fetch_add(a.a::<$T>(), a.o1()));
            bits_swap, |o: &$At, a, r| r.put(o.as_bits().swap(a.a::<$B>(), a.o1()));
            bits_fetch_xor, |o: &$At, a, r| r.put(o.as_bits().fetch_xor(a.a::<$B>(), a.o1()));
        }
        ex! { $n,
            bits_load, |o: &$At, a, r| r.put(o.as_bits().load(a.o1()));
            bits_store, |o: &$At, a, r| o.as_bits().store(a.a::<$B>(), a.o1());
        }
    };
}
#[cfg(not(target_arch = "msp430"))] // no soft-float runtime
float!(f32, AtomicF32, f32, u32);
#[cfg(feature = "a64")]
#[cfg(not(target_arch = "msp430"))]
float!(f64, AtomicF64, f64, u64);
#[cfg(feature = "sim-f16")]
float!(f16, AtomicF16, f16, u16);
#[cfg(feature = "sim-f16")]
float!(f128, AtomicF128, f128, u128);

// bool
const _: () = {
    #[export_name = "g_bool_lockfree"]
    unsafe extern "C" fn f(_o: *mut u8, _a: *const u8, r: *mut u8) {
        r.write(AtomicBool::is_lock_free() as u8);
        r.add(1).write(AtomicBool::is_always_lock_free() as u8);
        r.add(2).write(core::mem::size_of::<AtomicBool>() as u8);
        r.add(3).write(core::mem::align_of::<AtomicBool>() as u8);
    }
};
macro_rules! b { ($a:expr) => { ($a.a::<u8>() & 1) != 0 }; }
macro_rules! b2 { ($a:expr) => { ($a.b::<u8>() & 1) != 0 }; }
#[inline(always)]
fn rb(x: Result<bool, bool>) -> Result<u8, u8> { match x { Ok(v) => Ok(v as u8), Err(v) => Err(v as u8) } }
ex! { bool,
    load, |o: &AtomicBool, a, r| r.put(o.load(a.o1()) as u8);
    store, |o: &AtomicBool, a, r| o.store(b!(a), a.o1());
    fp_load, |o: *mut bool, a, r| r.put(AtomicBool::from_ptr(o).load(a.o1()) as u8);
    fp_store, |o: *mut bool, a, r| AtomicBool::from_ptr(o).store(b!(a), a.o1());
    new, |o: *mut AtomicBool, a, r| o.write(AtomicBool::new(b!(a)));
    from, |o: *mut AtomicBool, a, r| o.write(AtomicBool::from(b!(a)));
    default, |o: *mut AtomicBool, a, r| o.write(AtomicBool::default());
    get_mut_read, |o: &mut AtomicBool, a, r| r.put(*o.get_mut() as u8);
    get_mut_write, |o: &mut AtomicBool, a, r| *o.get_mut() = b!(a);
    into_inner, |o: *mut AtomicBool, a, r| r.put(o.read().into_inner() as u8);
    as_ptr, |o: &AtomicBool, a, r| r.put(o.as_ptr() as usize);
    raw_read, |o: &AtomicBool, a, r| r.put(o.as_ptr().read() as u8);
    raw_write, |o: &AtomicBool, a, r| o.as_ptr().write(b!(a));
}
#[cfg(feature = "fmt")]
ex! { bool, debug, |o: &AtomicBool, a, r| debug_to(a, r, o); }
serde_ops!(bool, AtomicBool);
#[cfg(feature = "amo32")]
ex! { bool,
    swap, |o: &AtomicBool, a, r| r.put(o.swap(b!(a), a.o1()) as u8);
    fetch_and, |o: &AtomicBool, a, r| r.put(o.fetch_and(b!(a), a.o1()) as u8);
    fetch_nand, |o: &AtomicBool, a, r| r.put(o.fetch_nand(b!(a), a.o1()) as u8);
    fetch_or, |o: &AtomicBool, a, r| r.put(o.fetch_or(b!(a), a.o1()) as u8);
    fetch_xor, |o: &AtomicBool, a, r| r.put(o.fetch_xor(b!(a), a.o1()) as u8);
    fetch_not, |o: &AtomicBool, a, r| r.put(o.fetch_not(a.o1()) as u8);
    and, |o: &AtomicBool, a, r| o.and(b!(a), a.o1());
    or, |o: &AtomicBool, a, r| o.or(b!(a), a.o1());
    xor, |o: &AtomicBool, a, r| o.xor(b!(a), a.o1());
    not, |o: &AtomicBool, a, r| o.not(a.o1());
    cas, |o: &AtomicBool, a, r| r.res(rb(o.compare_exchange(b!(a), b2!(a), a.o1(), a.o2())));
    casw, |o: &AtomicBool, a, r| r.res(rb(o.compare_exchange_weak(b!(a), b2!(a), a.o1(), a.o2())));
    fetch_update, |o: &AtomicBool, a, r| r.res(rb(o.fetch_update(a.o1(), a.o2(), |x| clo_bool(a, x))));
    fp_swap, |o: *mut bool, a, r| r.put(AtomicBool::from_ptr(o).swap(b!(a), a.o1()) as u8);
    fp_cas, |o: *mut bool, a, r| r.res(rb(AtomicBool::from_ptr(o).compare_exchange(b!(a), b2!(a), a.o1(), a.o2())));
}

// pointers: the ops that depend on the element type come in several sizes
layout!(ptr, AtomicPtr<u8>, *mut u8);
#[cfg(feature = "cas")]
ex! { ptr,
    fetch_update, |o: &AtomicPtr<u8>, a, r| r.res(o.fetch_update(a.o1(), a.o2(), |x| clo(a, x)));
}
macro_rules! ptr_amo {
    ($n:ident, $E:ty) => {
        ex! { $n,
            fetch_ptr_add, |o: &AtomicPtr<$E>, a, r| r.put(o.fetch_ptr_add(a.a::<usize>(), a.o1()));
            fetch_ptr_sub, |o: &AtomicPtr<$E>, a, r| r.put(o.fetch_ptr_sub(a.a::<usize>(), a.o1()));
            fetch_byte_add, |o: &AtomicPtr<$E>, a, r| r.put(o.fetch_byte_add(a.a::<usize>(), a.o1()));
            fetch_byte_sub, |o: &AtomicPtr<$E>, a, r| r.put(o.fetch_byte_sub(a.a::<usize>(), a.o1()));
            fetch_and, |o: &AtomicPtr<$E>, a, r| r.put(o.fetch_and(a.a::<usize>(), a.o1()));
            fetch_or, |o: &AtomicPtr<$E>, a, r| r.put(o.fetch_or(a.a::<usize>(), a.o1()));
            fetch_xor, |o: &AtomicPtr<$E>, a, r| r.put(o.fetch_xor(a.a::<usize>(), a.o1()));
            bit_set, |o: &AtomicPtr<$E>, a, r| r.put(o.bit_set(a.a::<u32>(), a.o1()) as u8);
            bit_clear, |o: &AtomicPtr<$E>, a, r| r.put(o.bit_clear(a.a::<u32>(), a.o1()) as u8);
            bit_toggle, |o: &AtomicPtr<$E>, a, r| r.put(o.bit_toggle(a.a::<u32>(), a.o1()) as u8);
        }
    };
}
#[cfg(all(feature = "amo32", not(feature = "cas")))]
ex! { ptr, swap, |o: &AtomicPtr<u8>, a, r| r.put(o.swap(a.a::<*mut u8>(), a.o1())); }
#[cfg(feature = "amo32")]
ptr_amo!(ptr, u8);
#[cfg(feature = "amo32")]
ptr_amo!(ptr0, ());
#[cfg(feature = "amo32")]
ptr_amo!(ptr2, u16);
#[cfg(feature = "amo32")]
ptr_amo!(ptr3, [u8; 3]);
#[cfg(feature = "amo32")]
ptr_amo!(ptr8, [u32; 2]);
#[cfg(feature = "amo32")]
ptr_amo!(ptr16, [u64; 2]);

// fences, hints
ex! { misc,
    fence, |o: *mut u8, a, r| portable_atomic::fence(a.o1());
    cfence, |o: *mut u8, a, r| portable_atomic::compiler_fence(a.o1());
    spin, |o: *mut u8, a, r| portable_atomic::hint::spin_loop();
    na_load8, |o: *mut u8, a, r| r.put(o.read_volatile());
    na_store8, |o: *mut u8, a, r| o.write_volatile(a.a::<u8>());
    na_load32, |o: *mut u32, a, r| r.put(o.read_volatile());
    na_store32, |o: *mut u32, a, r| o.write_volatile(a.a::<u32>());
    na_load_usize, |o: *mut usize, a, r| r.put(o.read_volatile());
    na_store_usize, |o: *mut usize, a, r| o.write_volatile(a.a::<usize>());
}

#[cfg(feature = "fmt")]
struct Sink(A);
#[cfg(feature = "fmt")]
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if unsafe { host_sink(self.0 .0, s.as_ptr(), s.len()) } != 0 { Ok(()) } else { Err(core::fmt::Error) }
    }
}
#[cfg(feature = "fmt")]
unsafe fn debug_to(a: A, r: R, x: &dyn core::fmt::Debug) {
    use core::fmt::Write;
    // args.o1 bit 0: alternate/hex variants are the same impl with different formatter flags
    let mut s = Sink(a);
    let res = match a.0.add(2).read() {
        4 => write!(s, "{:>12?}", x),
        5 => write!(s, "{:.2?}", x),
        6 => write!(s, "{:#010X?}", x),
        1 => write!(s, "{:x?}", x),
        2 => write!(s, "{:#?}", x),
        3 => write!(s, "{:+?}", x),
        _ => write!(s, "{:?}", x),
    };
    r.flag(res.is_ok());
}

#[cfg(feature = "fmt")]
ex! { ptr, fmtp, |o: &AtomicPtr<u8>, a, r| {
    use core::fmt::Write;
    let mut s = Sink(a);
    let res = match a.0.add(2).read() { 8 => write!(s, "{:#p}", *o), _ => write!(s, "{:p}", *o) };
    r.flag(res.is_ok());
}; }

#[cfg(feature = "fuse")]
mod fuse;
#[cfg(feature = "sim-serde")]
mod ser;
#[cfg(feature = "selftest")]
mod selftest;
#[cfg(feature = "selftest")]
#[no_mangle]
pub unsafe extern "C" fn g_selftest(x: *mut [u64; 16], args: *const u32, _out: *mut u8) {
    selftest::run(args.read_volatile() as usize, &mut *x);
}

#[cfg(feature = "cs")]
mod cs {
    extern "C" {
        fn host_cs_acquire() -> u32;
        fn host_cs_release(t: u32);
    }
    struct Cs;
    critical_section::set_impl!(Cs);
    unsafe impl critical_section::Impl for Cs {
        unsafe fn acquire() -> critical_section::RawRestoreState { cs_conv(host_cs_acquire()) }
        unsafe fn release(t: critical_section::RawRestoreState) { host_cs_release(cs_back(t)) }
    }
    fn cs_conv(x: u32) -> critical_section::RawRestoreState { x }
    fn cs_back(x: critical_section::RawRestoreState) -> u32 { x }
}
