//! Guest build configurations.
use crate::guest::{Arch, Cfg};
const FULL: &[&str] = &["cas", "amo32", "amo8", "a64", "a128", "fmt", "fallback"];
const F16: &[&str] = &["cas", "amo32", "amo8", "a64", "a128", "fmt", "fallback", "sim-f16"];
const SERDE: &[&str] = &["cas", "amo32", "amo8", "a64", "a128", "fmt", "fallback", "sim-serde"];
const SC: &[&str] = &["cas", "amo32", "amo8", "a64", "a128", "fmt", "fallback", "single-core"];
const SCS: &[&str] = &["cas", "amo32", "amo8", "a64", "a128", "fmt", "fallback", "single-core", "s-mode"];
const SCA: &[&str] = &["cas", "amo32", "amo8", "a64", "a128", "fmt", "fallback", "single-core", "force-amo"];
const SCF: &[&str] = &["cas", "amo32", "amo8", "a64", "a128", "fmt", "fallback", "single-core", "disable-fiq"];
const CS: &[&str] = &["cas", "amo32", "amo8", "a64", "a128", "fmt", "fallback", "cs"];
const PRIV: &[&str] = &["cas", "amo32", "amo8", "a64", "a128", "fmt", "fallback", "privileged"];
const PRIVS: &[&str] = &["cas", "amo32", "amo8", "a64", "a128", "fmt", "fallback", "privileged", "s-mode"];
const SMALL: &[&str] = &["cas", "amo32", "amo8", "a64", "a128", "fallback"];
const SMALL_CS: &[&str] = &["cas", "amo32", "amo8", "a64", "a128", "fallback", "cs"];
const FUSE: &[&str] = &["cas", "amo32", "amo8", "a64", "a128", "fallback", "fuse"];
const FUSE_SC: &[&str] = &["cas", "amo32", "amo8", "a64", "a128", "fallback", "single-core", "fuse"];
const FUSE_CS: &[&str] = &["cas", "amo32", "amo8", "a64", "a128", "fallback", "cs", "fuse"];
const FUSE_A: &[&str] = &["cas", "amo32", "amo8", "a64", "a128", "fallback", "single-core", "force-amo", "fuse"];
const FUSE_P: &[&str] = &["cas", "amo32", "amo8", "a64", "a128", "fallback", "privileged", "fuse"];
const FUSE_S: &[&str] = &["cas", "amo32", "amo8", "a64", "fallback", "fuse"];
macro_rules! cfg {
    ($n:literal, $t:literal, $a:ident, $bs:expr, $ni:expr, [$($f:literal),*], $fe:expr, $d:expr) => { Cfg { name: $n, triple: $t, arch: Arch::$a, build_std: $bs, nightly: $ni, flags: &[$($f),*], feats: $fe, dbg: $d } };
}
pub fn all() -> Vec<Cfg> {
    vec![
        cfg!("x64", "x86_64-unknown-linux-gnu", X64, false, false, [], FULL, false),
        cfg!("x64-dbg", "x86_64-unknown-linux-gnu", X64, false, false, [], FULL, true),
        cfg!("x64-cx16", "x86_64-unknown-linux-gnu", X64, false, false, ["-Ctarget-feature=+cmpxchg16b"], FULL, false),
        cfg!("x64-noout", "x86_64-unknown-linux-gnu", X64, false, false, ["--cfg=portable_atomic_no_outline_atomics"], FULL, false),
        cfg!("x64-avx", "x86_64-unknown-linux-gnu", X64, false, false, ["-Ctarget-feature=+avx"], FULL, false),
        cfg!("x64-cx16-avx", "x86_64-unknown-linux-gnu", X64, false, false, ["-Ctarget-feature=+cmpxchg16b,+avx"], FULL, false),
        cfg!("x64-cx16-noout", "x86_64-unknown-linux-gnu", X64, false, false, ["-Ctarget-feature=+cmpxchg16b", "--cfg=portable_atomic_no_outline_atomics"], FULL, false),
        cfg!("x64-l15", "x86_64-unknown-linux-gnu", X64, false, false, ["--cfg=portable_atomic_pre_llvm_16"], FULL, false),
        cfg!("x86-l15", "i686-unknown-linux-gnu", X86, false, false, ["--cfg=portable_atomic_pre_llvm_16"], FULL, false),
        cfg!("x64-noasm", "x86_64-unknown-linux-gnu", X64, false, false, ["--cfg=portable_atomic_no_asm"], FULL, false),
        cfg!("x64-old", "x86_64-unknown-linux-gnu", X64, false, false, ["--cfg=portable_atomic_no_stronger_failure_ordering", "--cfg=portable_atomic_no_atomic_min_max", "--cfg=portable_atomic_no_cmpxchg16b_target_feature", "--cfg=portable_atomic_no_strict_provenance", "--cfg=portable_atomic_no_cfg_target_has_atomic", "--cfg=portable_atomic_no_track_caller", "--cfg=portable_atomic_no_const_transmute", "--cfg=portable_atomic_no_const_mut_refs", "--cfg=portable_atomic_no_const_raw_ptr_deref", "--cfg=portable_atomic_no_asm_maybe_uninit"], FULL, false),
        cfg!("x64-tsan", "x86_64-unknown-linux-gnu", X64, false, false, ["--cfg=portable_atomic_sanitize_thread"], FULL, false),
        cfg!("x64-cx16-tsan", "x86_64-unknown-linux-gnu", X64, false, false, ["--cfg=portable_atomic_sanitize_thread", "-Ctarget-feature=+cmpxchg16b"], FULL, false),
        cfg!("x86-noasm", "i686-unknown-linux-gnu", X86, false, false, ["--cfg=portable_atomic_no_asm"], FULL, false),
        cfg!("a64-noasm", "aarch64-unknown-linux-gnu", A64, false, false, ["--cfg=portable_atomic_no_asm"], FULL, false),
        cfg!("a64-old", "aarch64-unknown-linux-gnu", A64, false, false, ["--cfg=portable_atomic_no_stronger_failure_ordering", "--cfg=portable_atomic_no_atomic_min_max", "--cfg=portable_atomic_no_strict_provenance", "--cfg=portable_atomic_no_cfg_target_has_atomic", "--cfg=portable_atomic_no_track_caller", "--cfg=portable_atomic_no_const_transmute", "--cfg=portable_atomic_no_asm_maybe_uninit"], FULL, false),
        cfg!("a64-tsan", "aarch64-unknown-linux-gnu", A64, false, false, ["--cfg=portable_atomic_sanitize_thread"], FULL, false),
        cfg!("x64-f16", "x86_64-unknown-linux-gnu", X64, false, true, ["--cfg=portable_atomic_unstable_f16", "--cfg=portable_atomic_unstable_f128"], F16, false),
        cfg!("x64-f16-dbg", "x86_64-unknown-linux-gnu", X64, false, true, ["--cfg=portable_atomic_unstable_f16", "--cfg=portable_atomic_unstable_f128"], F16, true),
        cfg!("a64-f16", "aarch64-unknown-linux-gnu", A64, true, false, ["--cfg=portable_atomic_unstable_f16", "--cfg=portable_atomic_unstable_f128"], F16, false),
        cfg!("a64-lsfe", "aarch64-unknown-linux-gnu", A64, true, false, ["--cfg=portable_atomic_unstable_f16", "--cfg=portable_atomic_unstable_f128", "--cfg=portable_atomic_target_feature=\"lsfe\""], F16, false),
        cfg!("a64-lsfe-l15", "aarch64-unknown-linux-gnu", A64, true, false, ["--cfg=portable_atomic_unstable_f16", "--cfg=portable_atomic_unstable_f128", "--cfg=portable_atomic_target_feature=\"lsfe\"", "--cfg=portable_atomic_pre_llvm_20"], F16, false),
        cfg!("x64-windows", "x86_64-windows-elf", X64, true, false, [], FULL, false),
        cfg!("x64-windows-cx16", "x86_64-windows-elf", X64, true, false, ["-Ctarget-feature=+cmpxchg16b"], FULL, true),
        cfg!("x32", "x86_64-unknown-linux-gnux32", X32, true, false, [], FULL, false),
        cfg!("x32-cx16", "x86_64-unknown-linux-gnux32", X32, true, false, ["-Ctarget-feature=+cmpxchg16b"], FULL, false),
        cfg!("x64-none", "x86_64-unknown-none", X64, true, false, [], FULL, false),
        cfg!("x64-serde", "x86_64-unknown-linux-gnu", X64, false, false, [], SERDE, false),
        cfg!("x64-serde-dbg", "x86_64-unknown-linux-gnu", X64, false, false, [], SERDE, true),
        cfg!("x86-serde", "i686-unknown-linux-gnu", X86, false, false, [], SERDE, false),
        cfg!("a64", "aarch64-unknown-linux-gnu", A64, false, false, [], FULL, false),
        cfg!("a64-dbg", "aarch64-unknown-linux-gnu", A64, false, false, [], FULL, true),
        cfg!("a64-noout", "aarch64-unknown-linux-gnu", A64, false, false, ["--cfg=portable_atomic_no_outline_atomics"], FULL, false),
        cfg!("a64-lse", "aarch64-unknown-linux-gnu", A64, false, false, ["-Ctarget-feature=+lse"], FULL, false),
        cfg!("a64-lse2", "aarch64-unknown-linux-gnu", A64, false, false, ["-Ctarget-feature=+lse,+lse2"], FULL, false),
        cfg!("a64-rcpc3", "aarch64-unknown-linux-gnu", A64, false, false, ["-Ctarget-feature=+lse,+lse2,+rcpc,+rcpc2", "--cfg=portable_atomic_target_feature=\"rcpc3\""], FULL, false),
        cfg!("a64-lse128", "aarch64-unknown-linux-gnu", A64, false, false, ["-Ctarget-feature=+lse,+lse2", "--cfg=portable_atomic_target_feature=\"lse128\"", "--cfg=portable_atomic_target_feature=\"rcpc3\""], FULL, false),
        cfg!("a64-lse-dbg", "aarch64-unknown-linux-gnu", A64, false, false, ["-Ctarget-feature=+lse"], FULL, true),
        cfg!("a64-lse128-dbg", "aarch64-unknown-linux-gnu", A64, false, false, ["-Ctarget-feature=+lse,+lse2", "--cfg=portable_atomic_target_feature=\"lse128\"", "--cfg=portable_atomic_target_feature=\"rcpc3\""], FULL, true),
        cfg!("a64-lse128n", "aarch64-unknown-linux-gnu", A64, false, false, ["-Ctarget-feature=+lse,+lse2", "--cfg=portable_atomic_target_feature=\"lse128\""], FULL, false),
        cfg!("a64-llsc", "aarch64-unknown-linux-gnu", A64, false, false, ["-Ctarget-feature=+lse", "--cfg=portable_atomic_ll_sc_rmw"], FULL, false),
        cfg!("a64-llsc0", "aarch64-unknown-linux-gnu", A64, false, false, ["--cfg=portable_atomic_ll_sc_rmw"], FULL, false),
        cfg!("a64-lse2only", "aarch64-unknown-linux-gnu", A64, false, false, ["-Ctarget-feature=+lse2"], FULL, false),
        cfg!("a64-l15", "aarch64-unknown-linux-gnu", A64, false, false, ["-Ctarget-feature=+lse,+lse2", "--cfg=portable_atomic_target_feature=\"lse128\"", "--cfg=portable_atomic_target_feature=\"rcpc3\"", "--cfg=portable_atomic_pre_llvm_16"], FULL, false),
        cfg!("a64-rcpc3only", "aarch64-unknown-linux-gnu", A64, false, false, ["--cfg=portable_atomic_target_feature=\"rcpc3\""], FULL, false),
        cfg!("a64-l15d", "aarch64-unknown-linux-gnu", A64, false, false, ["--cfg=portable_atomic_pre_llvm_16"], FULL, false),
        cfg!("a64-serde", "aarch64-unknown-linux-gnu", A64, false, false, [], SERDE, false),
        cfg!("a64-android", "aarch64-linux-android", A64, true, false, [], FULL, false),
        cfg!("a64-freebsd", "aarch64-unknown-freebsd", A64, true, false, [], FULL, false),
        cfg!("a64-netbsd", "aarch64-unknown-netbsd", A64, true, false, [], FULL, false),
        cfg!("a64-openbsd", "aarch64-unknown-openbsd", A64, true, false, [], FULL, false),
        cfg!("a64-uclibc", "aarch64-uclibc-elf", A64, true, false, [], FULL, false),
        cfg!("a64-illumos", "aarch64-unknown-illumos", A64, true, false, [], FULL, false),
        cfg!("a64-fuchsia", "aarch64-unknown-fuchsia", A64, true, false, [], FULL, false),
        cfg!("a64-apple", "aarch64-tvos-elf", A64, true, false, [], FULL, false),
        cfg!("a64-windows", "aarch64-windows-elf", A64, true, false, [], FULL, false),
        cfg!("a64-msvc", "aarch64-windows-msvc-elf", A64, true, false, [], FULL, false),
        cfg!("a64be", "aarch64_be-unknown-linux-gnu", A64, true, false, [], FULL, false),
        cfg!("a64be-lse2", "aarch64_be-unknown-linux-gnu", A64, true, false, ["-Ctarget-feature=+lse,+lse2"], FULL, false),
        cfg!("a64be-lse128", "aarch64_be-unknown-linux-gnu", A64, true, false, ["-Ctarget-feature=+lse,+lse2", "--cfg=portable_atomic_target_feature=\"lse128\"", "--cfg=portable_atomic_target_feature=\"rcpc3\""], FULL, false),
        cfg!("rv64", "riscv64gc-unknown-linux-gnu", Rv64, true, false, [], FULL, false),
        cfg!("rv64-zacas", "riscv64gc-unknown-linux-gnu", Rv64, true, false, ["-Ctarget-feature=+zacas"], FULL, false),
        cfg!("rv32", "riscv32imac-unknown-none-elf", Rv32, true, false, [], FULL, false),
        cfg!("rv32i-sc", "riscv32i-unknown-none-elf", Rv32, true, false, [], SC, false),
        cfg!("rv32i-sc-s", "riscv32i-unknown-none-elf", Rv32, true, false, [], SCS, false),
        cfg!("rv32i-amo", "riscv32i-unknown-none-elf", Rv32, true, false, [], SCA, false),
        cfg!("rv32i-zabha", "riscv32i-unknown-none-elf", Rv32, true, false, ["-Ctarget-feature=+zaamo,+zabha"], SC, false),
        cfg!("rv32-sc", "riscv32imac-unknown-none-elf", Rv32, true, false, [], SC, false),
        cfg!("rv32-priv", "riscv32imac-unknown-none-elf", Rv32, true, false, [], PRIV, false),
        cfg!("rv32-priv-s", "riscv32imac-unknown-none-elf", Rv32, true, false, [], PRIVS, false),
        cfg!("rv64-priv-s", "riscv64imac-unknown-none-elf", Rv64, true, false, [], PRIVS, false),
        cfg!("rv64i-sc", "riscv64im-unknown-none-elf", Rv64, true, false, [], SC, false),
        cfg!("rv32i-cs", "riscv32i-unknown-none-elf", Rv32, true, false, [], CS, false),
        cfg!("rv64i-cs", "riscv64im-unknown-none-elf", Rv64, true, false, [], CS, false),
        cfg!("rv32i", "riscv32i-unknown-none-elf", Rv32, true, false, [], &["fmt"], false),
        cfg!("rv32-za", "riscv32i-unknown-none-elf", Rv32, true, false, ["-Ctarget-feature=+zaamo"], &["fmt", "amo32"], false),
        cfg!("rv32-zab", "riscv32i-unknown-none-elf", Rv32, true, false, ["-Ctarget-feature=+zaamo,+zabha"], &["fmt", "amo32", "amo8"], false),
        cfg!("rv64-za", "riscv64im-unknown-none-elf", Rv64, true, false, ["-Ctarget-feature=+zaamo"], &["fmt", "amo32", "a64"], false),
        cfg!("rv64i-amo", "riscv64im-unknown-none-elf", Rv64, true, false, [], SCA, false),
        cfg!("rv32gc", "riscv32gc-unknown-linux-gnu", Rv32, true, false, [], FULL, false),
        cfg!("rv32-zacas", "riscv32gc-unknown-linux-gnu", Rv32, true, false, ["-Ctarget-feature=+zacas"], FULL, false),
        cfg!("v6m", "thumbv6m-none-eabi", Thumb, true, false, [], &["fmt"], false),
        cfg!("v6m-sc", "thumbv6m-none-eabi", Thumb, true, false, [], SC, false),
        cfg!("v6m-cs", "thumbv6m-none-eabi", Thumb, true, false, [], CS, false),
        cfg!("v8mb-priv", "thumbv8m.base-none-eabi", Thumb, true, false, [], PRIV, false),
        cfg!("v4t-sc", "armv4t-none-eabi", Arm, true, false, [], SC, false),
        cfg!("v4t-sc-dbg", "armv4t-none-eabi", Arm, true, false, [], SC, true),
        cfg!("v6m-sc-dbg", "thumbv6m-none-eabi", Thumb, true, false, [], SC, true),
        cfg!("v4t-fiq", "armv4t-none-eabi", Arm, true, false, [], SCF, false),
        cfg!("v4t-cs", "armv4t-none-eabi", Arm, true, false, [], CS, false),
        cfg!("v7a-priv", "armv7a-none-eabi", Arm, true, false, [], PRIV, false),
        cfg!("v5te", "armv5te-unknown-linux-gnueabi", Arm, true, false, [], FULL, false),
        cfg!("v7", "armv7-unknown-linux-gnueabi", Arm, true, false, [], FULL, false),
        cfg!("s390x", "s390x-unknown-linux-gnu", S390x, true, false, [], FULL, false),
        cfg!("s390x-dbg", "s390x-unknown-linux-gnu", S390x, true, false, [], FULL, true),
        cfg!("s390x-z196", "s390x-unknown-linux-gnu", S390x, true, false, ["-Ctarget-cpu=z196"], FULL, false),
        cfg!("s390x-z15", "s390x-unknown-linux-gnu", S390x, true, false, ["-Ctarget-cpu=z15"], FULL, false),
        cfg!("msp430", "msp430-none-elf", Msp430, true, false, ["-Copt-level=s"], SMALL, false),
        cfg!("msp430-cs", "msp430-none-elf", Msp430, true, false, ["-Copt-level=s"], SMALL_CS, false),
        cfg!("avr", "avr-none", Avr, true, false, ["-Ctarget-cpu=atmega1284p", "-Copt-level=s"], SMALL, false),
        cfg!("avr-xmega", "avr-none", Avr, true, false, ["-Ctarget-cpu=atxmega64a3u", "-Copt-level=s"], SMALL, false),
        cfg!("avr-cs", "avr-none", Avr, true, false, ["-Ctarget-cpu=atmega1284p", "-Copt-level=s"], SMALL_CS, false),
        cfg!("ppc64le", "powerpc64le-unknown-linux-gnu", Ppc64, true, false, [], FULL, false),
        cfg!("ppc64le-dbg", "powerpc64le-unknown-linux-gnu", Ppc64, true, false, [], FULL, true),
        cfg!("ppc64", "powerpc64-unknown-linux-musl", Ppc64, true, false, ["-Ctarget-feature=-crt-static"], FULL, false),
        cfg!("ppc64-p8", "powerpc64-unknown-linux-musl", Ppc64, true, false, ["-Ctarget-cpu=pwr8"], FULL, false),
        cfg!("ppc64-freebsd", "powerpc64-unknown-freebsd", Ppc64, true, false, [], FULL, false),
        cfg!("ppc64le-freebsd", "powerpc64le-unknown-freebsd", Ppc64, true, false, [], FULL, true),
        cfg!("ppc64-openbsd", "powerpc64-unknown-openbsd", Ppc64, true, false, [], FULL, false),
        cfg!("ppc64-noout", "powerpc64-unknown-linux-musl", Ppc64, true, false, ["--cfg=portable_atomic_no_outline_atomics"], FULL, false),
        cfg!("x86", "i686-unknown-linux-gnu", X86, false, false, [], FULL, false),
        cfg!("x64-fuse", "x86_64-unknown-linux-gnu", X64, false, false, [], FUSE, false),
        cfg!("x64-cx16-fuse", "x86_64-unknown-linux-gnu", X64, false, false, ["-Ctarget-feature=+cmpxchg16b"], FUSE, false),
        cfg!("x64-cx16-avx-fuse", "x86_64-unknown-linux-gnu", X64, false, false, ["-Ctarget-feature=+cmpxchg16b,+avx"], FUSE, false),
        cfg!("x64-cx16-noout-fuse", "x86_64-unknown-linux-gnu", X64, false, false, ["-Ctarget-feature=+cmpxchg16b", "--cfg=portable_atomic_no_outline_atomics"], FUSE, false),
        cfg!("x86-fuse", "i686-unknown-linux-gnu", X86, false, false, ["--cfg=portable_atomic_pre_llvm_16"], FUSE, false),
        cfg!("a64-fuse", "aarch64-unknown-linux-gnu", A64, false, false, [], FUSE, false),
        cfg!("a64-lse2-fuse", "aarch64-unknown-linux-gnu", A64, false, false, ["-Ctarget-feature=+lse,+lse2"], FUSE, false),
        cfg!("a64-noout-fuse", "aarch64-unknown-linux-gnu", A64, false, false, ["--cfg=portable_atomic_no_outline_atomics"], FUSE, false),
        cfg!("a64-lse128-fuse", "aarch64-unknown-linux-gnu", A64, false, false, ["-Ctarget-feature=+lse,+lse2", "--cfg=portable_atomic_target_feature=\"lse128\"", "--cfg=portable_atomic_target_feature=\"rcpc3\"", "--cfg=portable_atomic_target_feature=\"lsfe\""], FUSE, false),
        cfg!("a64-lse-fuse", "aarch64-unknown-linux-gnu", A64, false, false, ["-Ctarget-feature=+lse", "--cfg=portable_atomic_no_outline_atomics"], FUSE, false),
        cfg!("a64-rcpc3-fuse", "aarch64-unknown-linux-gnu", A64, false, false, ["-Ctarget-feature=+lse,+lse2,+rcpc,+rcpc2", "--cfg=portable_atomic_target_feature=\"rcpc3\""], FUSE, false),
        cfg!("a64-l15-fuse", "aarch64-unknown-linux-gnu", A64, false, false, ["-Ctarget-feature=+lse,+lse2", "--cfg=portable_atomic_target_feature=\"lse128\"", "--cfg=portable_atomic_target_feature=\"rcpc3\"", "--cfg=portable_atomic_pre_llvm_16"], FUSE, false),
        cfg!("rv32i-amo-fuse", "riscv32i-unknown-none-elf", Rv32, true, false, [], FUSE_A, false),
        cfg!("avr-xmega-fuse", "avr-none", Avr, true, false, ["-Ctarget-cpu=atxmega64a3u", "-Copt-level=s"], FUSE_S, false),
        cfg!("rv64-zacas-fuse", "riscv64gc-unknown-linux-gnu", Rv64, true, false, ["-Ctarget-feature=+zacas"], FUSE, false),
        cfg!("rv32-fuse", "riscv32imac-unknown-none-elf", Rv32, true, false, [], FUSE, false),
        cfg!("v5te-fuse", "armv5te-unknown-linux-gnueabi", Arm, true, false, [], FUSE, false),
        cfg!("s390x-fuse", "s390x-unknown-linux-gnu", S390x, true, false, [], FUSE, false),
        cfg!("ppc64le-fuse", "powerpc64le-unknown-linux-gnu", Ppc64, true, false, [], FUSE, false),
        cfg!("rv32i-sc-fuse", "riscv32i-unknown-none-elf", Rv32, true, false, [], FUSE_SC, false),
        cfg!("rv32i-cs-fuse", "riscv32i-unknown-none-elf", Rv32, true, false, [], FUSE_CS, false),
        cfg!("rv32-priv-fuse", "riscv32imac-unknown-none-elf", Rv32, true, false, [], FUSE_P, false),
        cfg!("v6m-sc-fuse", "thumbv6m-none-eabi", Thumb, true, false, [], FUSE_SC, false),
        cfg!("v4t-sc-fuse", "armv4t-none-eabi", Arm, true, false, [], FUSE_SC, false),
        cfg!("msp430-fuse", "msp430-none-elf", Msp430, true, false, ["-Copt-level=s"], FUSE_S, false),
        cfg!("avr-fuse", "avr-none", Avr, true, false, ["-Ctarget-cpu=atmega1284p", "-Copt-level=s"], FUSE_S, false),
    ]
}
pub fn get(n: &str) -> Cfg { all().into_iter().find(|c| c.name == n).unwrap_or_else(|| panic!("no config {n}")) }
