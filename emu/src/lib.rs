//! One exported function per operation, type and ordering; every function takes a pointer to an argument block, so the
//! only thing an interpreter has to know about the calling convention is where the first pointer argument is.
#![no_std]
#![allow(unexpected_cfgs, clippy::missing_safety_doc, unused_macros, unused_imports, dead_code)]
use atomic_maybe_uninit::{cfg_has_atomic_128, cfg_has_atomic_16, cfg_has_atomic_32, cfg_has_atomic_8, cfg_has_atomic_cas, cfg_has_atomic_ptr, cfg_no_atomic_cas, raw::*, AtomicMaybeUninit};
#[cfg(not(emu_64))]
use atomic_maybe_uninit::cfg_has_atomic_64;
// Pre-v6 Arm Linux has 64-bit operations that the macro does not announce.
#[cfg(emu_64)]
macro_rules! cfg_has_atomic_64 {
    ($($tt:tt)*) => { $($tt)* };
}
use core::{
    mem::MaybeUninit,
    ptr::{read_volatile, write_volatile},
    sync::atomic::Ordering::{self, *},
};

#[repr(C, align(16))]
pub struct B16([u8; 16]);
#[repr(C, align(16))]
pub struct Args {
    cell: B16, // pointer in the first bytes
    a: B16,
    b: B16,
    out: B16,
    ok: B16,
    wa: B16, // words whose low bits are the operands; the other bits are arbitrary
    wb: B16,
    ex: [B16; 8],
}
/// Truncates a whole word: the operand's register keeps arbitrary upper bits.
trait FromWord: Sized + Primitive {
    unsafe fn word(p: *const B16, q: *const B16) -> MaybeUninit<Self>;
}
macro_rules! from_word { ($($t:ident)*) => {$(
    impl FromWord for $t {
        #[inline(always)]
        unsafe fn word(p: *const B16, q: *const B16) -> MaybeUninit<Self> {
            if core::mem::size_of::<$t>() < core::mem::size_of::<usize>() {
                MaybeUninit::new(read_volatile(p as *const usize) as $t)
            } else {
                *(q as *const MaybeUninit<$t>)
            }
        }
    }
)*}; }
from_word!(u8 u16 u32 u64 u128 usize);
impl Args {
    #[inline(always)]
    unsafe fn cell<T: Primitive>(&self) -> *mut MaybeUninit<T> {
        *(&self.cell as *const B16 as *const *mut MaybeUninit<T>)
    }
    #[inline(always)]
    unsafe fn a<T: Primitive>(&self) -> MaybeUninit<T> {
        *(&self.a as *const B16 as *const MaybeUninit<T>)
    }
    #[inline(always)]
    unsafe fn b<T: Primitive>(&self) -> MaybeUninit<T> {
        *(&self.b as *const B16 as *const MaybeUninit<T>)
    }
    #[inline(always)]
    unsafe fn wa<T: FromWord>(&self) -> MaybeUninit<T> {
        T::word(&self.wa, &self.a)
    }
    #[inline(always)]
    unsafe fn wb<T: FromWord>(&self) -> MaybeUninit<T> {
        T::word(&self.wb, &self.b)
    }
    #[inline(always)]
    unsafe fn out<T: Primitive>(&mut self, v: MaybeUninit<T>) {
        *(&mut self.out as *mut B16 as *mut MaybeUninit<T>) = v
    }
    #[inline(always)]
    unsafe fn ok(&mut self, v: bool) {
        self.ok.0[0] = v as u8
    }
    #[inline(always)]
    fn ex(&mut self) -> *mut usize {
        &mut self.ex as *mut _ as *mut usize
    }
}
#[cfg(target_pointer_width = "64")]
const NEX: usize = 16;
#[cfg(target_pointer_width = "32")]
const NEX: usize = 20;
#[cfg(target_pointer_width = "16")]
const NEX: usize = 10;
/// Runs `f` with NEX loaded words and a comparison live across it.
#[inline(always)]
unsafe fn pressed(g: *mut Args, f: impl FnOnce()) {
    let e = (*g).ex();
    let mut v = [0usize; NEX];
    let mut i = 0;
    while i < NEX {
        v[i] = read_volatile(e.add(i));
        i += 1;
    }
    let c = v[0] < v[1];
    f();
    let mut i = 2;
    while i < NEX {
        write_volatile(e.add(i), v[i].wrapping_add(1));
        i += 1;
    }
    write_volatile(e, if c { v[2] } else { v[3] });
    write_volatile(e.add(1), v[1]);
}

macro_rules! m {
    ($f:ident, $g:ident, $body:block) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f($g: *mut Args) {
            $body
        }
    };
}
// raw functions
macro_rules! r_load { ($t:ident; $($f:ident $p:ident $o:ident,)*) => {$(
    m!($f, g, { let g = &mut *g; let v = <$t as AtomicLoad>::atomic_load(g.cell::<$t>(), $o); g.out::<$t>(v) });
    #[cfg(press)] m!($p, g, { pressed(g, || { let g = &mut *g; let v = <$t as AtomicLoad>::atomic_load(g.cell::<$t>(), $o); g.out::<$t>(v) }) });
)*}; }
macro_rules! r_store { ($t:ident; $($f:ident $p:ident $o:ident,)*) => {$(
    m!($f, g, { let g = &mut *g; <$t as AtomicStore>::atomic_store(g.cell::<$t>(), g.wa::<$t>(), $o) });
    #[cfg(press)] m!($p, g, { pressed(g, || { let g = &mut *g; <$t as AtomicStore>::atomic_store(g.cell::<$t>(), g.wa::<$t>(), $o) }) });
)*}; }
macro_rules! r_swap { ($t:ident; $($f:ident $p:ident $o:ident,)*) => {$(
    m!($f, g, { let g = &mut *g; let v = <$t as AtomicSwap>::atomic_swap(g.cell::<$t>(), g.wa::<$t>(), $o); g.out::<$t>(v) });
    #[cfg(press)] m!($p, g, { pressed(g, || { let g = &mut *g; let v = <$t as AtomicSwap>::atomic_swap(g.cell::<$t>(), g.wa::<$t>(), $o); g.out::<$t>(v) }) });
)*}; }
macro_rules! r_cas { ($t:ident; $($f:ident $w:ident $p:ident $q:ident $s:ident $o:ident,)*) => {$(
    m!($f, g, { let g = &mut *g; let (v, ok) = <$t as AtomicCompareExchange>::atomic_compare_exchange(g.cell::<$t>(), g.wa::<$t>(), g.wb::<$t>(), $s, $o); g.out::<$t>(v); g.ok(ok) });
    m!($w, g, { let g = &mut *g; let (v, ok) = <$t as AtomicCompareExchange>::atomic_compare_exchange_weak(g.cell::<$t>(), g.wa::<$t>(), g.wb::<$t>(), $s, $o); g.out::<$t>(v); g.ok(ok) });
    #[cfg(press)] m!($p, g, { pressed(g, || { let g = &mut *g; let (v, ok) = <$t as AtomicCompareExchange>::atomic_compare_exchange(g.cell::<$t>(), g.wa::<$t>(), g.wb::<$t>(), $s, $o); g.out::<$t>(v); g.ok(ok) }) });
    #[cfg(press)] m!($q, g, { pressed(g, || { let g = &mut *g; let (v, ok) = <$t as AtomicCompareExchange>::atomic_compare_exchange_weak(g.cell::<$t>(), g.wa::<$t>(), g.wb::<$t>(), $s, $o); g.out::<$t>(v); g.ok(ok) }) });
)*}; }
// methods
macro_rules! m_load { ($t:ident; $($f:ident $p:ident $o:ident,)*) => {$(
    m!($f, g, { let g = &mut *g; let v = AtomicMaybeUninit::from_ptr(g.cell::<$t>()).load($o); g.out::<$t>(v) });
)*}; }
macro_rules! m_store { ($t:ident; $($f:ident $p:ident $o:ident,)*) => {$(
    m!($f, g, { let g = &mut *g; AtomicMaybeUninit::from_ptr(g.cell::<$t>()).store(g.a::<$t>(), $o) });
)*}; }
macro_rules! m_swap { ($t:ident; $($f:ident $p:ident $o:ident,)*) => {$(
    m!($f, g, { let g = &mut *g; let v = AtomicMaybeUninit::from_ptr(g.cell::<$t>()).swap(g.a::<$t>(), $o); g.out::<$t>(v) });
)*}; }
macro_rules! m_cas { ($t:ident; $($f:ident $w:ident $p:ident $q:ident $s:ident $o:ident,)*) => {$(
    m!($f, g, { let g = &mut *g; let r = AtomicMaybeUninit::from_ptr(g.cell::<$t>()).compare_exchange(g.a::<$t>(), g.b::<$t>(), $s, $o);
        match r { Ok(v) => { g.out::<$t>(v); g.ok(true) } Err(v) => { g.out::<$t>(v); g.ok(false) } } });
    m!($w, g, { let g = &mut *g; let r = AtomicMaybeUninit::from_ptr(g.cell::<$t>()).compare_exchange_weak(g.a::<$t>(), g.b::<$t>(), $s, $o);
        match r { Ok(v) => { g.out::<$t>(v); g.ok(true) } Err(v) => { g.out::<$t>(v); g.ok(false) } } });
)*}; }
macro_rules! fu { ($t:ident; $($f:ident $s:ident $o:ident,)*) => {$(
    m!($f, g, { let g = &mut *g; let k = g.a::<$t>().assume_init();
        let r = AtomicMaybeUninit::from_ptr(g.cell::<$t>()).fetch_update($s, $o, |x| Some(MaybeUninit::new(x.assume_init() ^ k)));
        match r { Ok(v) => { g.out::<$t>(v); g.ok(true) } Err(v) => { g.out::<$t>(v); g.ok(false) } } });
)*}; }
// a fetch_update that replaces one value by another and rejects everything else
macro_rules! fc { ($t:ident; $($f:ident $s:ident $o:ident,)*) => {$(
    m!($f, g, { let g = &mut *g; let (k, n) = (g.a::<$t>().assume_init(), g.b::<$t>());
        let r = AtomicMaybeUninit::from_ptr(g.cell::<$t>()).fetch_update($s, $o, |x| if x.assume_init() == k { Some(n) } else { None });
        match r { Ok(v) => { g.out::<$t>(v); g.ok(true) } Err(v) => { g.out::<$t>(v); g.ok(false) } } });
)*}; }
/// Plain accesses to other memory before and after `f`: word 0 is written twice, word 1 is read twice.
#[inline(always)]
unsafe fn context(g: *mut Args, f: impl FnOnce()) {
    let e = (*g).ex();
    let (w1, w2) = (*e.add(2), *e.add(3));
    *e = w1;
    let d0 = *e.add(1);
    f();
    *e = w2;
    let d1 = *e.add(1);
    *e.add(4) = d0;
    *e.add(5) = d1;
}
/// The cell read plainly before and after `f`.
#[inline(always)]
unsafe fn plain<T: Primitive>(g: *mut Args, f: impl FnOnce()) {
    let c = (*g).cell::<T>();
    let x = *c;
    f();
    let y = *c;
    *(&mut (*g).ex[6] as *mut B16 as *mut MaybeUninit<T>) = x;
    *(&mut (*g).ex[7] as *mut B16 as *mut MaybeUninit<T>) = y;
}
/// Doubles held across `f`; their order is reversed.
#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
#[inline(always)]
unsafe fn doubles(g: *mut Args, f: impl FnOnce()) {
    const N: usize = if cfg!(target_feature = "sse2") { 16 } else { 8 };
    let e = &mut (*g).ex as *mut _ as *mut f64;
    let mut v = [0f64; N];
    let mut i = 0;
    while i < N {
        v[i] = read_volatile(e.add(i));
        i += 1;
    }
    f();
    let mut i = 0;
    while i < N {
        write_volatile(e.add(i), v[N - 1 - i]);
        i += 1;
    }
}
macro_rules! x_load { ($t:ident; $($q:ident $c:ident $s:ident $k:ident $z:ident $f:ident $o:ident,)*) => {$(
    m!($q, g, { context(g, || { let g = &mut *g; let v = <$t as AtomicLoad>::atomic_load(g.cell::<$t>(), $o); g.out::<$t>(v) }) });
    m!($c, g, { plain::<$t>(g, || { let g = &mut *g; let v = <$t as AtomicLoad>::atomic_load(g.cell::<$t>(), $o); g.out::<$t>(v) }) });
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    m!($f, g, { doubles(g, || { let g = &mut *g; let v = <$t as AtomicLoad>::atomic_load(g.cell::<$t>(), $o); g.out::<$t>(v) }) });
)*}; }
macro_rules! x_store { ($t:ident; $($q:ident $c:ident $s:ident $k:ident $z:ident $f:ident $o:ident,)*) => {$(
    m!($q, g, { context(g, || { let g = &mut *g; <$t as AtomicStore>::atomic_store(g.cell::<$t>(), g.wa::<$t>(), $o) }) });
    m!($c, g, { plain::<$t>(g, || { let g = &mut *g; <$t as AtomicStore>::atomic_store(g.cell::<$t>(), g.wa::<$t>(), $o) }) });
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    m!($f, g, { doubles(g, || { let g = &mut *g; <$t as AtomicStore>::atomic_store(g.cell::<$t>(), g.wa::<$t>(), $o) }) });
    m!($s, g, { let c = (*g).cell::<$t>(); <$t as AtomicStore>::atomic_store(c, MaybeUninit::new(c as usize as $t), $o) });
    m!($k, g, { <$t as AtomicStore>::atomic_store((*g).cell::<$t>(), MaybeUninit::new(!0), $o) });
    m!($z, g, { <$t as AtomicStore>::atomic_store((*g).cell::<$t>(), MaybeUninit::new(0), $o) });
)*}; }
macro_rules! x_swap { ($t:ident; $($q:ident $c:ident $s:ident $k:ident $z:ident $f:ident $o:ident,)*) => {$(
    m!($q, g, { context(g, || { let g = &mut *g; let v = <$t as AtomicSwap>::atomic_swap(g.cell::<$t>(), g.wa::<$t>(), $o); g.out::<$t>(v) }) });
    m!($c, g, { plain::<$t>(g, || { let g = &mut *g; let v = <$t as AtomicSwap>::atomic_swap(g.cell::<$t>(), g.wa::<$t>(), $o); g.out::<$t>(v) }) });
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    m!($f, g, { doubles(g, || { let g = &mut *g; let v = <$t as AtomicSwap>::atomic_swap(g.cell::<$t>(), g.wa::<$t>(), $o); g.out::<$t>(v) }) });
    m!($s, g, { let c = (*g).cell::<$t>(); let v = <$t as AtomicSwap>::atomic_swap(c, MaybeUninit::new(c as usize as $t), $o); (*g).out::<$t>(v) });
    m!($k, g, { let v = <$t as AtomicSwap>::atomic_swap((*g).cell::<$t>(), MaybeUninit::new(!0), $o); (*g).out::<$t>(v) });
    m!($z, g, { let v = <$t as AtomicSwap>::atomic_swap((*g).cell::<$t>(), MaybeUninit::new(0), $o); (*g).out::<$t>(v) });
)*}; }
macro_rules! x_cas { ($t:ident; $($q:ident $c:ident $a:ident $d:ident $k:ident $z:ident $f:ident $s:ident $o:ident,)*) => {$(
    m!($q, g, { context(g, || { let g = &mut *g; let (v, ok) = <$t as AtomicCompareExchange>::atomic_compare_exchange(g.cell::<$t>(), g.wa::<$t>(), g.wb::<$t>(), $s, $o); g.out::<$t>(v); g.ok(ok) }) });
    m!($c, g, { plain::<$t>(g, || { let g = &mut *g; let (v, ok) = <$t as AtomicCompareExchange>::atomic_compare_exchange(g.cell::<$t>(), g.wa::<$t>(), g.wb::<$t>(), $s, $o); g.out::<$t>(v); g.ok(ok) }) });
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    m!($f, g, { doubles(g, || { let g = &mut *g; let (v, ok) = <$t as AtomicCompareExchange>::atomic_compare_exchange(g.cell::<$t>(), g.wa::<$t>(), g.wb::<$t>(), $s, $o); g.out::<$t>(v); g.ok(ok) }) });
    m!($a, g, { let c = (*g).cell::<$t>(); let x = MaybeUninit::new(c as usize as $t); let (v, ok) = <$t as AtomicCompareExchange>::atomic_compare_exchange(c, x, x, $s, $o); (*g).out::<$t>(v); (*g).ok(ok) });
    m!($d, g, { let g = &mut *g; let x = g.wa::<$t>(); let (v, ok) = <$t as AtomicCompareExchange>::atomic_compare_exchange(g.cell::<$t>(), x, x, $s, $o); g.out::<$t>(v); g.ok(ok) });
    m!($k, g, { let x = MaybeUninit::new(!0); let (v, ok) = <$t as AtomicCompareExchange>::atomic_compare_exchange((*g).cell::<$t>(), x, x, $s, $o); (*g).out::<$t>(v); (*g).ok(ok) });
    m!($z, g, { let x = MaybeUninit::new(0); let (v, ok) = <$t as AtomicCompareExchange>::atomic_compare_exchange((*g).cell::<$t>(), x, x, $s, $o); (*g).out::<$t>(v); (*g).ok(ok) });
)*}; }
include!("ops.rs");
