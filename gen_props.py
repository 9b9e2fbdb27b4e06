#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that the statements stay in one readable place)."""
import json,os
L='src/lib.rs'; R='src/raw.rs'; U='src/utils.rs'; X='src/arch/x86.rs'; LX='src/arch_legacy/x86.rs'; CX='src/arch/cfgs/x86.rs'
OA=['src/arch/*.rs','src/arch_legacy/*.rs']
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
ops='load, store, swap, compare_exchange, compare_exchange_weak, fetch_update'
cell=[dict(name='v',meaning='the MaybeUninit<T> cell every operation acts on',where=L)]
p('C01','Every operation history behaves like a plain memory cell',
  'On one thread, any sequence of constructions, conversions, loads, stores, swaps, compare-exchanges, fetch_updates and plain accesses through get_mut / as_ptr / into_inner returns exactly the bytes a plain variable of the same type would return, and leaves exactly those bytes in memory. This holds for every integer type, every byte pattern, every accepted ordering and every build of the crate (optimisation level, instruction-set features, inline-asm generation).',
  ['histories','inputs','configurations'],'all operation sequences x 12 integer types x all values x all valid orderings x build configurations that run on x86/x86_64',
  'The tests run fixed short sequences with a handful of constants in unoptimised builds of three configurations; SSE-only, x87, cmpxchg8b-only, legacy-asm and release builds are never executed.',
  [L,R,X,LX,U]+OA,[('per-width inline asm bodies',X),('pre-MaybeUninit-asm bodies',LX),('by-value transmute',U)],
  ['return value of each call','bytes at as_ptr()'],cell)
p('C02','compare_exchange succeeds exactly on byte-wise equality',
  'compare_exchange stores the new value and returns Ok(previous) if and only if all bytes of the current value equal the expected bytes; otherwise it returns Err(previous) and leaves memory unchanged. It never fails spuriously, the returned previous value is always the complete value that was in memory, and compare_exchange_weak differs only in that it may also fail on equality, with the same guarantees about what it returns and leaves behind.',
  ['inputs','configurations'],'all (current, expected, new) triples of every width, all valid ordering pairs, all builds',
  'The tests compare a few constants, never values that differ in one bit, one byte or only one half, nor with arbitrary surrounding memory or register contents.',
  [L,R,X,LX]+OA,[('lock cmpxchg / cmpxchg8b / cmpxchg16b and the flag capture',X),('ok-flag to Result conversion',L)],
  ['Result variant and payload','bytes at as_ptr()'],cell)
p('C03','Operations touch only the bytes of their own value',
  'An atomic operation never writes any byte outside the value it is applied to - not even transiently, so a concurrent update of an adjacent object is never lost - and never reads or faults outside the naturally aligned location; it works at the very start or end of mapped memory. A load of a value no wider than a pointer needs only read permission on that memory.',
  ['inputs','schedules','configurations'],'all placements of the value relative to neighbours, page edges and page protections; all neighbour contents; all interleavings with neighbour writes',
  'The tests place atomics on the stack or in statics with no guard pages, read-only memory or neighbour updates.',
  [R,X,LX]+OA,[('operand widths of each access',X),('documented pointer validity requirements',R)],
  ['bytes before and after the value','faults'],cell)
p('C04','Initialised bytes survive next to uninitialised ones',
  'A value may be partly or wholly uninitialised: moving it through any constructor or operation preserves every initialised byte and the initialised/uninitialised status of each byte, and no operation lets its control flow depend on an uninitialised byte except the equality test of compare_exchange itself.',
  ['inputs','programs','configurations'],'all initialisation masks (per bit in memory, per byte in source programs) x values x operations x optimisation levels',
  'Existing tests use one padded struct with fixed values in a debug build and cannot observe the initialisation status of a byte at all.',
  [L,X,LX,U]+OA,[('values passed to inline asm as MaybeUninit',X),('values passed by pointer',LX)],
  ['definedness (V-bits) of results and memory','bytes read back by compiled programs'],cell)
p('C05','Loads and stores never tear',
  'Whatever other threads do, and wherever a thread is preempted, every value obtained from an atomic is one single value that was stored as a whole, and no other thread can ever observe a partly written value, for every supported width including the ones wider than a register.',
  ['schedules','inputs','configurations'],'all interleavings at machine-instruction granularity of readers, writers and read-modify-writes; all value pairs',
  'The stress tests sample a few schedules of a few constants in debug builds and only for set membership.',
  [X,LX]+OA,[('single wide access: movq, movlps, fild/fistp, cmpxchg8b, cmpxchg16b',X)],
  ['returned values','memory image after each instruction'],cell)
p('C06','Read-modify-writes are atomic: histories are linearizable',
  'Every concurrent history of loads, stores, swaps, compare-exchanges and fetch_updates on one atomic is linearizable to a single register: each operation takes effect at one instant between its call and return, no update is lost or applied twice, and a failed compare-exchange has no effect.',
  ['schedules','histories','configurations'],'all interleavings of a few operations per thread; long contended runs on real cores',
  'Existing concurrency tests only check that loaded values belong to the set of stored ones; a swap or compare-exchange that loses updates passes them.',
  [X,LX,L]+OA,[('locked / implicitly locked read-modify-write instructions and retry loops',X),('fetch_update loop',L)],
  ['results of all operations','final value'],cell)
p('C07','Release/acquire synchronisation publishes earlier writes',
  'If a load, swap or compare-exchange with acquire (or stronger) ordering - including the failure ordering of a compare-exchange - reads a value written by a release (or stronger) operation, then everything the writing thread did before that operation, through ordinary or atomic memory accesses, is visible after it in the reading thread. Equivalently, neither the compiler nor the processor moves other memory accesses across such an operation in the forbidden direction, at any optimisation level.',
  ['programs','schedules','configurations'],'all programs that publish data through any release-class operation and consume it through any acquire-class one; all interleavings; all optimisation levels',
  'Message-passing tests exist only for release builds that are not run, and cover no compiler-level reordering in optimised code.',
  [X,LX,L]+OA,[('inline asm treated as a memory barrier by the compiler',X),('ordering match arms',X)],
  ['data values read after synchronisation'],cell)
p('C08','SeqCst operations form one total order',
  'Programs in which all accesses are SeqCst operations show only outcomes that some interleaving of the operations can explain; in particular, a SeqCst store is never reordered after a later SeqCst load of a different location by the same thread.',
  ['programs','schedules','configurations'],'litmus programs of 2-3 threads over 2-3 atomics of every width, with every operation kind',
  'Store-buffering tests are compiled out of the configurations that run; a debug unit test on one thread cannot show store-load reordering.',
  [X,LX]+OA,[('xchg store / locked instruction after wide store',X)],
  ['final registers of litmus programs'],cell)
p('C09','Exactly the documented orderings are rejected, without effect',
  'A load panics for Release and AcqRel, a store for Acquire and AcqRel, compare_exchange[_weak] and fetch_update for a Release or AcqRel failure ordering, and nothing else panics: every other ordering combination is accepted by every operation. A rejected call leaves the value untouched and calls no user closure, in debug and release builds alike.',
  ['inputs','configurations'],'all orderings and ordering pairs x operations x types x values x builds, with the ordering known at compile time or only at run time',
  'The panic tests run only in unoptimised builds, do not check that nothing was written, and omit fetch_update.',
  [L,U],[('ordering assertions',U),('assertion before the access',L)],
  ['panic or return','bytes after the call','closure calls'],cell)
p('C10','fetch_update applies its function exactly once, atomically',
  'fetch_update calls the function with the current value, and again with the fresh current value each time the value changed in between; it stores exactly the result of the last call, in one atomic step from exactly the value that call was given, and returns Ok of that value; if the function returns None it returns Err of the value that call was given and writes nothing. A panic in the function propagates and leaves the value unmodified.',
  ['histories','schedules','inputs','configurations'],'all closure behaviours (values, None, panic, reentrant modification of the same atomic) and all interleavings with other threads',
  'The tests call it with no interference, so the retry path is never executed.',
  [L],[('fetch_update retry loop',L)],['arguments of every closure call','result','final value'],cell)
p('C11','The atomic is layout-identical to its value and aliases it',
  'AtomicMaybeUninit<T> has the size and byte representation of T and alignment equal to its size, in arrays, statics, structs and behind from_ptr; all constructors, conversions, from_ptr, get_mut, as_ptr and into_inner address that same storage without undefined behaviour, for any initialised or uninitialised contents and in const contexts where documented. It is Send, Sync, Unpin, UnwindSafe and RefUnwindSafe, and its Debug output never depends on, reads or reveals the contents.',
  ['inputs','histories','configurations'],'all types, contents, placements and sequences of the non-atomic API',
  'Layout is asserted per type but aliasing sequences, uninitialised contents and const evaluation are not explored, and tests are not run under a UB detector.',
  [L,U],[('repr(C) + zero-length alignment array',L),('transmute_copy_by_val',U),('unsafe impl Sync',L)],
  ['addresses, sizes and bytes','Miri verdict','formatted text'],cell)
p('C12','Availability macros tell the truth about each target',
  'In every build configuration and on every supported target, cfg_has_atomic_N! expands its contents exactly when load and store exist for every N-bit type, cfg_has_atomic_cas! exactly when swap and compare-exchange exist for the pointer-width type, and cfg_no_atomic_* is always the exact complement; available operations are those documented in the platform table, and the crate and every available operation compile to machine code. On pre-v6 Arm Linux, where operations rely on helpers of the kernel, a 64-bit operation is refused without effect on a kernel that lacks its helper, and everything else works on every kernel.',
  ['configurations'],'targets x target features x cfg switches',
  'The tests compile three x86 configurations; availability on other targets and feature sets is never evaluated.',
  ['src/arch/cfgs',L,'build.rs','src/arch/mod.rs'],[('per-architecture cfg macros','src/arch/cfgs'),('target feature detection','build.rs')],
  ['trait implementations and macro expansions of a probe crate'])
p('C13','Operations do not disturb the surrounding computation',
  'In any surrounding code, at any optimisation level and register pressure, an operation leaves every other variable, register the caller relies on, flag, floating-point state and stack slot unchanged, and the compiler sees its effect on memory: values around and after it are what the source program says.',
  ['programs','configurations'],'generated programs that keep many integer, float and memory values live across inlined operations; all call sites',
  'The tests call each operation in isolation without optimisation, so missing clobbers, wrong asm options and unrestored reserved registers go unnoticed.',
  [X,LX,U]+OA,[('asm operands, clobbers and options',X),('saving of rbx / esi',X),('assert_unchecked on the captured flag',U)],
  ['results of generated programs','callee-saved registers, flags, x87 tag word, MXCSR, red zone after a call'])
p('C14','Low-level raw operations agree with the methods',
  'The raw trait functions, applied to any valid pointer aligned to the size of the type (whatever object it points into), give the same results and effects as the corresponding AtomicMaybeUninit methods with the same arguments, for every documented ordering combination.',
  ['inputs','histories','configurations'],'all operation sequences through raw pointers vs. methods; all types, placements, orderings',
  'The tests use raw calls on a few constants and never compare the two APIs.',
  [R,L,X,LX]+OA,[('sealed raw traits',R),('method wrappers',L)],['results and memory of both'],cell)
p('C15','Operations are lock-free and finish in bounded steps',
  'A thread stopped at any instruction inside an operation never prevents other threads (or a signal handler on the same thread) from completing operations on the same or any other atomic, and an operation that is not interfered with completes in a bounded number of its own instructions.',
  ['schedules','configurations'],'every suspension point inside every operation x every other operation on the same or a neighbouring location',
  'Unit tests never suspend a thread inside an operation, so an implementation taking a lock would pass.',
  [X,LX,L]+OA,[('single instructions or compare-exchange retry loops',X)],['instruction counts to completion'],cell)
p('C16','Safe code can do what is documented and nothing that breaks the rest',
  'The compiler accepts every documented use: constructors and const functions in const and static items (with the values a plain variable would have), conversions, code that is generic over the raw traits, sharing between threads, FnMut closures of any kind. It rejects, in safe code, every use that would defeat the other guarantees: types other than the primitive integers, implementations of the sealed traits outside the crate, exclusive access through a shared reference, access that outlives or overlaps its borrow, copies of the atomic, raw functions and from_ptr outside unsafe code, operands of another type, results taken as initialised, operations a bound does not promise.',
  ['programs','configurations'],'generated user programs, and for each forbidden step a program with and without it',
  'Unit tests are programs that compile; they say nothing about programs that must not, and sample few of those that must.',
  [L,R],[('signatures and bounds of the methods',L),('sealed raw traits',R),('private::PrimitivePriv',L)],
  ['whether rustc accepts a program','assertions evaluated by the compiler'],cell)
if __name__=='__main__':
    here=os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here,'properties.jsonl'),'w') as f:
        for x in P:
            assert len(x['title'])<=80,x['title']
            f.write(json.dumps(x)+'\n')
    print(len(P))
