#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so the file stays well-formed)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=[observe]
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))
API="tests/api-test runs each method once or a few times on one thread with small constants (5, 10, 23...); no test in the reliable set lets two threads touch the same atomic"
p("C01","Integer atomics up to the native width are linearizable for every operation",
 "For every 8-, 16-, 32- and 64-bit and pointer-sized integer atomic, every operation (load, store, swap, compare-and-exchange, arithmetic, bitwise, min/max, negate/complement, and the variants that do not return a value) behaves as one indivisible step with wrapping, correctly signed integer semantics: any concurrent history is equivalent to some sequential order of the completed operations that respects real time, with exactly the returned previous values and final value of that order. This holds for every operand value and whichever memory ordering is requested.",
 ["schedules","inputs","histories","programs"],
 "all thread interleavings of the compiled code, all operand and initial values of all integer types, all operations, all orderings; x86-64, 32-bit x86, AArch64 (with and without LSE), RISC-V (with and without the A/Zaamo/Zabha/Zacas extensions)",
 API+", so lost updates, wrong retries and sign/width mistakes for other values are not reachable.",
 ["src/lib.rs","src/imp/core_atomic.rs","src/imp/x86.rs","src/utils.rs","src/imp/riscv.rs"],
 [("public integer wrapper types","src/lib.rs"),("wrappers of the core atomics and CAS-loop operations","src/imp/core_atomic.rs"),("x86 assembly overrides for no-fetch, not/neg and bit operations","src/imp/x86.rs"),("default no-fetch and bit operations","src/utils.rs")],
 observe="return values of every operation and the final memory contents")
p("C02","128-bit atomics are indivisible whichever CPU path is selected",
 "Every operation on a 128-bit integer atomic is one indivisible step for every operand value: no load ever returns a value whose halves come from different writes, no update is lost or half-applied, and carries, borrows, and signed and unsigned comparisons across the two halves are exact. This holds for whatever implementation the CPU features select: double-width compare-and-swap, vector load/store, LL/SC pairs, single-copy-atomic pair accesses, or the lock-based fallback.",
 ["schedules","inputs","configurations","histories"],
 "all interleavings, all 128-bit operands, all operations and orderings, all feature combinations of x86-64 (cmpxchg16b/AVX present or not, statically or at run time), AArch64 (LL/SC, LSE, LSE2, LSE128, LRCPC3) and RISC-V (Zacas)",
 API+"; qemu and the build host exercise one feature set each, without contention, so tearing and retry errors never show.",
 ["src/imp/atomic128/x86_64.rs","src/imp/atomic128/aarch64.rs","src/imp/atomic128/riscv64.rs","src/imp/atomic128/macros.rs","src/imp/atomic128/intrinsics.rs","src/imp/fallback/mod.rs"],
 [("cmpxchg16b loops and vmovdqa load/store","src/imp/atomic128/x86_64.rs"),("ldxp/stxp, casp, ldp/stp, swpp","src/imp/atomic128/aarch64.rs"),("amocas.q","src/imp/atomic128/riscv64.rs")],
 observe="return values and final 16 bytes of the object")
p("C03","Lock-based fallback atomics stay atomic when unrelated objects share a lock",
 "Where an integer atomic wider than the hardware supports is emulated with locks, every operation on every such object is still one indivisible step, a load never returns a mixture of an old and a new value however many writes overlap it (including after the internal version counter wraps), and operations on other objects that happen to share the lock never change its value. Any number of threads using any set of addresses always finish without deadlock.",
 ["schedules","inputs","histories","configurations"],
 "all interleavings including weakly-ordered memory, all placements of objects (colliding and non-colliding), all operations and operands, histories that cross the counter's wrap-around; 64-bit on 32-bit targets and 128-bit on 64-bit targets",
 API+"; a torn optimistic read or a missing validation needs a writer inside the reader's window, and counter wrap needs 2^31 writes.",
 ["src/imp/fallback/mod.rs","src/imp/fallback/seq_lock.rs","src/imp/fallback/seq_lock_wide.rs","src/imp/fallback/seq_lock_common.rs","src/imp/fallback/outline_atomics.rs"],
 [("global lock table and the emulated operations","src/imp/fallback/mod.rs"),("optimistic read/validate, write lock, abort","src/imp/fallback/seq_lock_common.rs")],
 state=[("lock word","version stamp, or the locked marker while a writer is inside")],
 observe="return values and final contents of all objects")
p("C04","Acquire/Release operations and fences publish earlier writes",
 "When an acquire operation (or an acquire fence after a relaxed one) observes a value written by a release operation (or by a write after a release fence, or by a read-modify-write continuing that release sequence), everything the releasing thread did before is visible to the acquiring thread afterwards. This holds for every pair of operations that accept those orderings, including the failure ordering of compare-and-exchange, on every type and every implementation path.",
 ["schedules","programs","configurations"],
 "all executions permitted by the target's memory model (store buffers on x86, out-of-order visibility and stale reads on AArch64/RISC-V) of all small multi-threaded programs over the operations, types and orderings",
 "All reliable tests are single-threaded, so no ordering can be violated in them; the host (x86) is also too strong to show missing AArch64/RISC-V ordering.",
 ["src/lib.rs","src/imp/core_atomic.rs","src/imp/atomic128/aarch64.rs","src/imp/atomic128/x86_64.rs","src/imp/atomic128/riscv64.rs","src/imp/fallback/seq_lock_common.rs","src/utils.rs"],
 [("ordering to instruction-suffix dispatch","src/imp/atomic128/aarch64.rs"),("acquire/release of the fallback lock","src/imp/fallback/seq_lock_common.rs"),("fence","src/lib.rs")],
 observe="values read by each thread of the program")
p("C05","SeqCst operations and fences agree on one total order",
 "All sequentially consistent operations and fences in a program, on any mix of atomic types and implementation paths, take effect in a single total order consistent with each thread's program order and with the values read, as the Rust/C++20 memory model requires; in particular two threads that each store then load with this ordering never both miss the other's store.",
 ["schedules","programs","configurations"],
 "all executions permitted by the target's memory model of all small multi-threaded programs mixing SeqCst operations and fences with weaker ones, across objects of different widths",
 "Store-buffering, IRIW and similar outcomes need two or more concurrently executing threads; the reliable tests have one.",
 ["src/lib.rs","src/imp/atomic128/x86_64.rs","src/imp/atomic128/aarch64.rs","src/imp/atomic128/riscv64.rs","src/imp/fallback/mod.rs","src/imp/core_atomic.rs"],
 [("SeqCst store/load code paths","src/imp/atomic128/x86_64.rs"),("SeqCst fences around the fallback lock","src/imp/fallback/mod.rs"),("fence","src/lib.rs")],
 observe="values read by each thread of the program")
p("C06","Every atomic has one modification order, even under Relaxed",
 "For each atomic object, all threads agree on a single order of its modifications; a thread never observes that order running backwards, a read-modify-write always acts on the value immediately before its own in that order, and no value is ever read that was not written. This holds at every memory ordering, including Relaxed, on weakly ordered hardware.",
 ["schedules","programs","histories"],
 "all executions permitted by the target memory model, all mixes of loads, stores and read-modify-writes at all orderings on one or several objects",
 "Needs concurrent readers and writers on the same object; the reliable tests never have two threads on an object.",
 ["src/lib.rs","src/imp/core_atomic.rs","src/imp/atomic128/aarch64.rs","src/imp/atomic128/x86_64.rs","src/imp/fallback/mod.rs"],
 [("relaxed load/store/RMW paths","src/imp/core_atomic.rs"),("128-bit relaxed paths","src/imp/atomic128/aarch64.rs"),("fallback load","src/imp/fallback/mod.rs")],
 observe="per-thread sequences of values read, final value")
p("C07","compare_exchange: fails only on a real mismatch and then changes nothing",
 "A strong compare-and-exchange succeeds if and only if the value at its atomic step is bit-for-bit equal to the expected value, and reports the value it actually saw; on failure the stored value is left untouched. The weak form may additionally fail spuriously, but then reports the current value (equal to the expected one) and changes nothing, and it never reports success without storing; this holds for integers of every width, booleans, pointers and floats, at every pair of orderings.",
 ["schedules","inputs","fault_sequences","configurations"],
 "all interleavings, spurious store-conditional failures injected anywhere, all expected/new/current values including ones differing in a single bit or only in the upper half",
 "A lost reservation, or another thread writing between comparison and store, never occurs in the single-threaded tests; mismatches in one half of a wide value are hardly sampled.",
 ["src/lib.rs","src/imp/core_atomic.rs","src/imp/atomic128/aarch64.rs","src/imp/atomic128/x86_64.rs","src/imp/atomic128/riscv64.rs","src/imp/fallback/mod.rs","src/imp/float/int.rs","src/imp/riscv.rs"],
 [("compare_exchange and compare_exchange_weak","src/lib.rs"),("LL/SC compare-exchange with upper/lower comparison","src/imp/atomic128/aarch64.rs"),("float CAS through bits","src/imp/float/int.rs")],
 observe="Ok/Err results and final contents")
p("C08","fetch_update applies its closure's result exactly once, or not at all",
 "A closure-based update either stores the closure's result for exactly the value that was current at the moment of the store and returns that previous value, or, if the closure declines, stores nothing and returns the value it last saw. If the closure panics, or itself uses the same atomic, the atomic keeps a legitimate value, nothing is half-applied, and other threads are not blocked.",
 ["schedules","inputs","fault_sequences"],
 "all interleavings with concurrent writers, closures that accept, decline, panic at any call, or re-enter the same atomic; all types",
 "The closure's retry path runs only when another thread interferes between load and compare-exchange; no reliable test does that or panics inside a closure under contention.",
 ["src/lib.rs","src/imp/core_atomic.rs","src/imp/float/int.rs"],
 [("fetch_update on every type","src/lib.rs")],
 observe="closure invocations, results, final value")
p("C09","AtomicBool is linearizable and never holds anything but true or false",
 "Every operation on the boolean atomic (load, store, swap, compare-and-exchange, and/nand/or/xor/not and their no-return forms, closure updates) is one indivisible step with the boolean truth table's result, under any interleaving; its byte is always 0 or 1 at every instant at which another thread could look.",
 ["schedules","inputs","histories"],
 "all interleavings, all operations, operands and orderings, all target families",
 API+"; a momentarily invalid byte or a lost toggle needs a concurrent observer.",
 ["src/lib.rs","src/imp/core_atomic.rs","src/imp/x86.rs"],
 [("boolean operations built on byte atomics","src/lib.rs")],
 state=[("stored byte","0 = false, 1 = true; any other value is undefined behaviour")],
 observe="return values, the byte at every write to it")
p("C10","AtomicPtr operations are indivisible and count in the documented unit",
 "Every operation on the pointer atomic is one indivisible step under any interleaving: load/store/swap/compare-and-exchange transfer the full address, pointer-add/sub move by whole elements, byte-add/sub by bytes, and or/and/xor and bit operations act on the address bits, each returning the previous pointer (or bit).",
 ["schedules","inputs","histories"],
 "all interleavings, all addresses and operands including wrap-around, element sizes 0/1/2/3/8/16, all orderings, all target families",
 API+", with a handful of small offsets.",
 ["src/lib.rs","src/imp/core_atomic.rs"],
 [("pointer arithmetic and bitwise operations","src/lib.rs"),("pointer atomics over integer atomics","src/imp/core_atomic.rs")],
 observe="return values and final address")
p("C11","Float atomics: indivisible, IEEE-exact, and bitwise in storage and comparison",
 "Load, store, swap, and compare-and-exchange on float atomics transfer and compare exact bit patterns (signed zeros and NaN payloads included); add, sub, min, max, neg, abs and closure updates are each one indivisible read-modify-write whose stored result is what the corresponding scalar float operation yields for the previous value, under any interleaving. The bit-level integer view of a float atomic refers to the same storage.",
 ["schedules","inputs","histories"],
 "all interleavings, all bit patterns (zeros, subnormals, infinities, quiet and signalling NaNs), all operations and orderings, 32- and 64-bit floats on all target families",
 API+"; the CAS-loop retries of float arithmetic need interference from another thread.",
 ["src/lib.rs","src/imp/float/int.rs","src/imp/float/mod.rs","src/imp/float/aarch64.rs"],
 [("float operations via integer CAS loops","src/imp/float/int.rs"),("LSFE instructions","src/imp/float/aarch64.rs")],
 observe="returned and stored bit patterns")
p("C12","Bit operations change exactly one bit and report its previous state",
 "Setting, clearing or toggling a bit of an integer or pointer atomic is one indivisible step that changes only the addressed bit (bit index taken modulo the width), leaves all other bits as concurrent operations made them, and returns whether the bit was previously set.",
 ["schedules","inputs","histories"],
 "all interleavings, all bit indices (including those >= the width), all values, all widths 8..128 and pointers, all orderings, all target families",
 API+" on a few indices; no test has two threads toggling bits of one word.",
 ["src/lib.rs","src/imp/x86.rs","src/utils.rs","src/imp/core_atomic.rs"],
 [("lock bts/btr/btc","src/imp/x86.rs"),("default bit operations via fetch_or/and/xor","src/utils.rs")],
 observe="returned bit and final value")
p("C13","An invalid memory ordering panics before touching anything",
 "Passing an ordering an operation does not accept (a releasing load or compare-and-exchange failure, an acquiring store, a relaxed fence) always panics, and then the atomic's value and every internal lock are exactly as before, so other threads continue unaffected; every accepted ordering never panics, for any values and under any contention.",
 ["schedules","inputs","configurations","fault_sequences"],
 "all operations x all orderings x all types x implementation paths, with other threads operating concurrently",
 "The tests check some invalid orderings on one thread; they cannot show that a panic leaves nothing locked or half-written under contention on every path, nor that no valid call panics.",
 ["src/lib.rs","src/utils.rs","src/imp/fallback/mod.rs","src/imp/core_atomic.rs"],
 [("ordering assertions","src/utils.rs"),("assertion before locking","src/imp/fallback/mod.rs")],
 observe="panics, memory before/after, progress of other threads")
p("C14","Operations reported lock-free complete even if other threads stop forever",
 "If a type reports itself lock-free, then no operation on it can be prevented from completing by other threads being suspended forever at any instruction inside their own operations; if it reports itself always lock-free it also reports lock-free, and the answer never changes while the program runs.",
 ["schedules","fault_sequences","configurations"],
 "all choices of a suspension instruction in every operation of every type, all CPU feature configurations, all surviving-thread schedules",
 "No test can suspend a thread at a chosen instruction inside an operation, so a hidden lock or a wrong lock-freedom answer is invisible.",
 ["src/lib.rs","src/imp/atomic128/x86_64.rs","src/imp/atomic128/macros.rs","src/imp/core_atomic.rs","src/imp/fallback/mod.rs","src/imp/detect/common.rs"],
 [("is_lock_free / is_always_lock_free","src/lib.rs"),("lock-freedom by detection","src/imp/atomic128/x86_64.rs")],
 observe="completion of surviving threads within a step bound")
p("C15","Every operation finishes once the system stops interfering",
 "Under any schedule, once injected faults stop (stalled threads resume, store-conditional failures cease, every thread keeps being scheduled), every pending operation completes in bounded time: no operation deadlocks, leaves a lock held, or spins forever, including loads racing a continuous stream of writers on lock-based types.",
 ["schedules","fault_sequences"],
 "all interleavings with stalls, spurious failures and preemption at any instruction, for all operations on all implementation paths, including many threads on one lock",
 "The single-threaded tests never contend for a lock or retry.",
 ["src/imp/fallback/seq_lock_common.rs","src/imp/fallback/mod.rs","src/imp/atomic128/x86_64.rs","src/imp/atomic128/aarch64.rs","src/imp/core_atomic.rs"],
 [("lock acquisition and backoff","src/imp/fallback/seq_lock_common.rs"),("retry loops","src/imp/atomic128/aarch64.rs")],
 observe="completion of every operation within a step bound after faults stop")
p("C16","All threads use one implementation per object, even while detection races",
 "Whatever the timing of first uses, and even if probing the CPU is slow, repeated or answers in pieces, all operations on all objects of a type agree on whether they use hardware instructions or locks, so operations issued by different threads during initialization are mutually atomic.",
 ["schedules","fault_sequences","configurations"],
 "all interleavings of first operations of several threads with the feature-detection code, all CPU feature combinations, and detection whose answer differs between cores or calls",
 "Detection runs once per process on one machine in the tests, with one thread.",
 ["src/imp/detect/common.rs","src/imp/detect/x86_64.rs","src/imp/detect/auxv.rs","src/utils.rs","src/imp/atomic128/x86_64.rs"],
 [("detection cache","src/imp/detect/common.rs"),("function-pointer caching dispatch","src/utils.rs")],
 state=[("detection cache","0 = not yet detected, otherwise the feature bits")],
 observe="linearizability of the mixed history, memory locations used")
p("C17","Feature detection never selects an instruction the CPU or OS lacks",
 "With run-time detection, no operation ever executes an instruction outside the compile-time baseline unless the CPU and operating system both report it (including OS support for vector state; 16-byte vector accesses only where AVX is reported usable); when detection sources are missing, fail, or return partial data, operations still work through a path that is safe on that CPU.",
 ["configurations","fault_sequences","inputs"],
 "all CPUID/XGETBV outcomes on x86-64, all auxiliary-vector and system-register outcomes on AArch64/RISC-V Linux, including failing or absent sources, for every operation",
 "The tests run on one CPU and on qemu's default models; a missing OS-support check or misread bit only shows on other machines.",
 ["src/imp/detect/x86_64.rs","src/imp/detect/auxv.rs","src/imp/detect/aarch64_aa64reg.rs","src/imp/detect/riscv_linux.rs","src/imp/detect/common.rs","src/imp/atomic128/x86_64.rs","src/imp/atomic128/aarch64.rs"],
 [("cpuid/xgetbv decoding","src/imp/detect/x86_64.rs"),("auxv decoding","src/imp/detect/auxv.rs"),("dispatch","src/imp/atomic128/aarch64.rs")],
 observe="instructions executed against the simulated CPU's capability set")
p("C18","Single-core targets: operations are atomic with respect to interrupts",
 "On single-core targets without compare-and-swap, an interrupt arriving at any instruction of any operation, whose handler itself performs any operations on the same or other atomics, never observes or causes a torn, lost or half-applied update: the combined history is equivalent to a sequential one.",
 ["schedules","inputs","fault_sequences","configurations"],
 "an interrupt (also nested) at every instruction boundary at which the CPU would take it, for every operation and type; Armv6-M, legacy Arm, RISC-V without A (machine and supervisor mode, with and without atomic memory operations), MSP430",
 "These targets are not built or run by the existing tests at all, and no test can deliver an interrupt at a chosen instruction.",
 ["src/imp/interrupt/mod.rs","src/imp/interrupt/armv6m.rs","src/imp/interrupt/armv4t.rs","src/imp/interrupt/riscv.rs","src/imp/interrupt/msp430.rs","src/imp/riscv.rs","src/imp/msp430.rs","src/imp/arm_linux.rs","src/imp/atomic64/arm_linux.rs"],
 [("critical section around read-modify-write","src/imp/interrupt/mod.rs"),("load/store without critical section","src/imp/riscv.rs")],
 observe="results of interrupted and interrupting operations, final contents")
p("C19","Interrupt-enable state is always restored exactly",
 "An operation that masks interrupts returns with the interrupt-enable state and all other bits of the status register exactly as they were on entry, whether interrupts were enabled or already disabled, also when operations nest inside interrupt handlers, and it never enables interrupts that were disabled, not even momentarily.",
 ["schedules","inputs","configurations"],
 "all operations and types, all initial status-register values, interrupts at any instruction; Armv6-M, legacy Arm (with and without FIQ masking), RISC-V M and S mode, MSP430",
 "These targets are not executed by the existing tests, and a wrongly restored mask is not visible in any returned value.",
 ["src/imp/interrupt/mod.rs","src/imp/interrupt/armv6m.rs","src/imp/interrupt/armv4t.rs","src/imp/interrupt/riscv.rs","src/imp/interrupt/msp430.rs"],
 [("disable/restore","src/imp/interrupt/armv6m.rs"),("guard","src/imp/interrupt/mod.rs")],
 state=[("status register","PRIMASK / CPSR / mstatus / sstatus / SR")],
 observe="status register before, during and after each operation")
p("C20","critical-section integration: balanced, correctly nested, atomic across cores",
 "With the critical-section feature on targets without compare-and-swap, every operation enters and leaves the user-provided critical section in strictly balanced, properly nested pairs, hands back exactly the restore token it was given, touches the value only inside it, and is therefore atomic on multi-core systems and against interrupts for any correct critical-section implementation; such types never claim to be lock-free.",
 ["schedules","inputs","fault_sequences","configurations"],
 "all interleavings of several cores and interrupts, all operations and types, all token values, critical sections with arbitrary delays",
 "The tests enable the feature only on targets with compare-and-swap, where it is unused.",
 ["src/imp/interrupt/mod.rs"],
 [("critical-section guard","src/imp/interrupt/mod.rs")],
 observe="acquire/release calls with tokens, accesses to the object, results")
p("C21","Operations touch nothing but their own atomic",
 "An operation writes no memory other than the bytes of its own atomic (apart from the library's private locks, detection state, and its own stack), never reads or writes past the naturally aligned word containing it, and preserves every register the calling convention says is preserved, so values of neighbouring bytes, fields and atomics concurrently changed by other threads are never lost or corrupted.",
 ["schedules","inputs","configurations"],
 "all operations, types, orderings and implementation paths; all positions of narrow atomics within their machine word with concurrent writers on the neighbours; all prior register contents",
 "A clobbered callee-saved register (for example the one reserved by the compiler on x86) or a read-modify-write of a neighbour's byte shows only with specific surrounding code or concurrent neighbours.",
 ["src/imp/x86.rs","src/imp/atomic128/x86_64.rs","src/imp/atomic128/aarch64.rs","src/imp/core_atomic.rs","src/imp/riscv.rs","src/imp/float/int.rs"],
 [("inline assembly operand constraints","src/imp/atomic128/x86_64.rs"),("sub-word emulation by masking","src/imp/riscv.rs")],
 observe="every simulated write; registers and neighbouring memory after each call")
p("C22","Formatting and serialization observe one value and report errors faithfully",
 "Debug formatting and serialization of an atomic act on exactly one atomically read value present at some instant during the call, even while other threads write; deserialization yields an atomic holding exactly the decoded value; and errors or panics of the formatter, serializer or deserializer pass through unchanged, leaving the atomic untouched and nothing locked.",
 ["schedules","inputs","fault_sequences"],
 "all interleavings with concurrent writers, all values, formatter/serializer/deserializer failures at any call, all types",
 "The tests format and serialize idle atomics with always-succeeding sinks.",
 ["src/lib.rs","src/utils.rs"],
 [("Debug and serde implementations","src/utils.rs")],
 observe="bytes given to the sink, returned errors, value afterwards")
p("C23","Privileged lock fallback: no deadlock between a lock holder and an interrupt",
 "On multi-core systems built with the assume-privileged option, an interrupt handler that uses a lock-based atomic never deadlocks against the code it interrupted on the same core, because interrupts stay disabled exactly while a lock is held, and the previous interrupt state is restored on every path out, including failed compare-and-exchanges and loads.",
 ["schedules","fault_sequences","configurations"],
 "interrupts at every instruction on every core, several cores contending for the same lock, all operations on lock-based types, all initial interrupt states; RISC-V M and S mode",
 "No existing test builds this configuration.",
 ["src/imp/fallback/seq_lock_common.rs","src/imp/interrupt/riscv.rs","src/imp/interrupt/mod.rs"],
 [("interrupt disable around the lock","src/imp/fallback/seq_lock_common.rs")],
 state=[("lock word","locked marker"),("status register","interrupt enable bit")],
 observe="completion of every operation, status register after each call")
p("C24","Exclusive access and raw views refer to the same storage as the atomic",
 "Values given at construction, written through exclusive references, or written through an aliasing view created from a raw pointer (to the same aligned storage) are exactly the values atomic operations see, and values left by concurrent atomic operations are exactly what exclusive access, consumption and raw pointers return afterwards, for every type and layout.",
 ["schedules","inputs","histories"],
 "all types and values; views used by several threads concurrently with the original; exclusive phases alternating with concurrent phases",
 "The tests check a few constants on one thread; a view that selects a different implementation or lock than the original shows only under concurrency.",
 ["src/lib.rs","src/imp/core_atomic.rs","src/imp/atomic128/macros.rs","src/imp/fallback/mod.rs","src/imp/float/int.rs"],
 [("from_ptr, get_mut, into_inner, as_ptr","src/lib.rs")],
 observe="values returned by each access path")
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
