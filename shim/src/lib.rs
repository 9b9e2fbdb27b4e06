//! C-ABI table over every operation of every integer type of atomic-maybe-uninit.
//! cfgs set by the driver: shim_64, shim_128 (load/store/swap exist), shim_cas.
#![allow(clippy::missing_safety_doc)]

use atomic_maybe_uninit::raw::{AtomicCompareExchange, AtomicLoad, AtomicStore, AtomicSwap, Primitive};
use atomic_maybe_uninit::AtomicMaybeUninit as A;
use std::ffi::c_void;
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::{self, *};

pub type Cb = unsafe extern "C" fn(*mut c_void, *const u8, *mut u8) -> u32;
pub type LoadFn = unsafe extern "C" fn(*const u8, u32, *mut u8) -> u32;
pub type StoreFn = unsafe extern "C" fn(*mut u8, u32, *const u8) -> u32;
pub type SwapFn = unsafe extern "C" fn(*mut u8, u32, *const u8, *mut u8) -> u32;
pub type CasFn = unsafe extern "C" fn(*mut u8, u32, *const u8, *const u8, *mut u8) -> u32;
pub type FuFn = unsafe extern "C" fn(*mut u8, u32, Cb, *mut c_void, *mut u8) -> u32;
pub type CtorFn = unsafe extern "C" fn(u32, *const u8, *mut u8);
pub type ExtractFn = unsafe extern "C" fn(u32, *mut u8, *mut u8) -> usize;
pub type InjectFn = unsafe extern "C" fn(u32, *mut u8, *const u8) -> usize;
pub type DebugFn = unsafe extern "C" fn(*const u8, *mut u8, usize) -> usize;

unsafe extern "C" fn no_load(_: *const u8, _: u32, _: *mut u8) -> u32 { 9 }
unsafe extern "C" fn no_store(_: *mut u8, _: u32, _: *const u8) -> u32 { 9 }
unsafe extern "C" fn no_swap(_: *mut u8, _: u32, _: *const u8, _: *mut u8) -> u32 { 9 }
unsafe extern "C" fn no_cas(_: *mut u8, _: u32, _: *const u8, _: *const u8, _: *mut u8) -> u32 { 9 }
unsafe extern "C" fn no_fu(_: *mut u8, _: u32, _: Cb, _: *mut c_void, _: *mut u8) -> u32 { 9 }

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Flavor {
    pub load: LoadFn,
    pub store: StoreFn,
    pub swap: SwapFn,
    pub cas: CasFn,
    pub casw: CasFn,
    pub fu: FuFn,
}
/// Flavors: 0 method/const ordering, 1 method/run-time ordering (through from_ptr), 2 raw/const ordering,
/// 3 raw/run-time ordering, 4 method/const ordering/catch, 5 method/run-time ordering/catch.
pub const FLAVORS: usize = 6;
#[repr(C)]
pub struct TypeOps {
    pub name: [u8; 8],
    pub size: u32,
    pub amu_size: u32,
    pub amu_align: u32,
    /// bit 0 load/store/swap, bit 1 compare-exchange
    pub avail: u32,
    pub arr_stride: u32,
    pub auto_traits: u32,
    pub fl: [Flavor; FLAVORS],
    pub ctor: CtorFn,
    pub extract: ExtractFn,
    pub inject: InjectFn,
    pub debug: DebugFn,
    /// address of a `static` atomic built with const_new / new in const context, holding PATTERN
    pub stat: extern "C" fn(u32) -> *const u8,
}
unsafe impl Sync for TypeOps {}

#[inline(always)]
fn ord(o: u32) -> Ordering {
    match o & 0xff {
        0 => Relaxed,
        1 => Release,
        2 => Acquire,
        3 => AcqRel,
        _ => SeqCst,
    }
}
#[inline(always)]
unsafe fn rd<T: Primitive>(p: *const u8) -> MaybeUninit<T> {
    (p as *const MaybeUninit<T>).read_unaligned()
}
#[inline(always)]
unsafe fn wr<T: Primitive>(p: *mut u8, v: MaybeUninit<T>) {
    (p as *mut MaybeUninit<T>).write_unaligned(v)
}
#[inline(always)]
unsafe fn at<'a, T: Primitive>(p: *const u8) -> &'a A<T> {
    &*(p as *const A<T>)
}
struct Injected;

macro_rules! const5 {
    ($o:expr, $f:ident) => {
        match $o & 0xff { 0 => $f!(Relaxed), 1 => $f!(Release), 2 => $f!(Acquire), 3 => $f!(AcqRel), _ => $f!(SeqCst) }
    };
}
macro_rules! const_l {
    ($o:expr, $f:ident) => {
        match $o & 0xff { 0 => $f!(Relaxed), 2 => $f!(Acquire), _ => $f!(SeqCst) }
    };
}
macro_rules! const_s {
    ($o:expr, $f:ident) => {
        match $o & 0xff { 0 => $f!(Relaxed), 1 => $f!(Release), _ => $f!(SeqCst) }
    };
}
macro_rules! const55 {
    ($o:expr, $f:ident) => {
        match ($o & 0xff, ($o >> 8) & 0xff) {
            (0, 0) => $f!(Relaxed, Relaxed), (0, 1) => $f!(Relaxed, Release), (0, 2) => $f!(Relaxed, Acquire), (0, 3) => $f!(Relaxed, AcqRel), (0, _) => $f!(Relaxed, SeqCst),
            (1, 0) => $f!(Release, Relaxed), (1, 1) => $f!(Release, Release), (1, 2) => $f!(Release, Acquire), (1, 3) => $f!(Release, AcqRel), (1, _) => $f!(Release, SeqCst),
            (2, 0) => $f!(Acquire, Relaxed), (2, 1) => $f!(Acquire, Release), (2, 2) => $f!(Acquire, Acquire), (2, 3) => $f!(Acquire, AcqRel), (2, _) => $f!(Acquire, SeqCst),
            (3, 0) => $f!(AcqRel, Relaxed), (3, 1) => $f!(AcqRel, Release), (3, 2) => $f!(AcqRel, Acquire), (3, 3) => $f!(AcqRel, AcqRel), (3, _) => $f!(AcqRel, SeqCst),
            (_, 0) => $f!(SeqCst, Relaxed), (_, 1) => $f!(SeqCst, Release), (_, 2) => $f!(SeqCst, Acquire), (_, 3) => $f!(SeqCst, AcqRel), (_, _) => $f!(SeqCst, SeqCst),
        }
    };
}
macro_rules! const53 {
    ($o:expr, $f:ident) => {
        match ($o & 0xff, ($o >> 8) & 0xff) {
            (0, 0) => $f!(Relaxed, Relaxed), (0, 2) => $f!(Relaxed, Acquire), (0, _) => $f!(Relaxed, SeqCst),
            (1, 0) => $f!(Release, Relaxed), (1, 2) => $f!(Release, Acquire), (1, _) => $f!(Release, SeqCst),
            (2, 0) => $f!(Acquire, Relaxed), (2, 2) => $f!(Acquire, Acquire), (2, _) => $f!(Acquire, SeqCst),
            (3, 0) => $f!(AcqRel, Relaxed), (3, 2) => $f!(AcqRel, Acquire), (3, _) => $f!(AcqRel, SeqCst),
            (_, 0) => $f!(SeqCst, Relaxed), (_, 2) => $f!(SeqCst, Acquire), (_, _) => $f!(SeqCst, SeqCst),
        }
    };
}

// ---- flavor 0: methods, constant orderings (valid ones only; others are flavor 4's business)
unsafe extern "C" fn m0_load<T: AtomicLoad>(p: *const u8, o: u32, out: *mut u8) -> u32 {
    macro_rules! f { ($o:ident) => { wr::<T>(out, at::<T>(p).load($o)) } }
    const_l!(o, f);
    0
}
unsafe extern "C" fn m0_store<T: AtomicStore>(p: *mut u8, o: u32, v: *const u8) -> u32 {
    macro_rules! f { ($o:ident) => { at::<T>(p).store(rd(v), $o) } }
    const_s!(o, f);
    0
}
unsafe extern "C" fn m0_swap<T: AtomicSwap>(p: *mut u8, o: u32, v: *const u8, out: *mut u8) -> u32 {
    macro_rules! f { ($o:ident) => { wr::<T>(out, at::<T>(p).swap(rd(v), $o)) } }
    const5!(o, f);
    0
}
#[inline(always)]
unsafe fn res<T: Primitive>(r: Result<MaybeUninit<T>, MaybeUninit<T>>, out: *mut u8) -> u32 {
    match r {
        Ok(v) => { wr(out, v); 1 }
        Err(v) => { wr(out, v); 0 }
    }
}
#[inline(always)]
unsafe fn rawres<T: Primitive>(r: (MaybeUninit<T>, bool), out: *mut u8) -> u32 {
    wr(out, r.0);
    r.1 as u32
}
unsafe extern "C" fn m0_cas<T: AtomicCompareExchange>(p: *mut u8, o: u32, old: *const u8, new: *const u8, out: *mut u8) -> u32 {
    macro_rules! f { ($s:ident, $f:ident) => { res::<T>(at::<T>(p).compare_exchange(rd(old), rd(new), $s, $f), out) } }
    const53!(o, f)
}
unsafe extern "C" fn m0_casw<T: AtomicCompareExchange>(p: *mut u8, o: u32, old: *const u8, new: *const u8, out: *mut u8) -> u32 {
    macro_rules! f { ($s:ident, $f:ident) => { res::<T>(at::<T>(p).compare_exchange_weak(rd(old), rd(new), $s, $f), out) } }
    const53!(o, f)
}
#[inline(always)]
unsafe fn call<T: Primitive>(cb: Cb, ctx: *mut c_void, prev: MaybeUninit<T>) -> Option<MaybeUninit<T>> {
    let mut next = MaybeUninit::<T>::uninit();
    match cb(ctx, (&raw const prev).cast(), (&raw mut next).cast()) {
        0 => None,
        1 => Some(next),
        _ => std::panic::resume_unwind(Box::new(Injected)),
    }
}
unsafe extern "C" fn m0_fu<T: AtomicCompareExchange>(p: *mut u8, o: u32, cb: Cb, ctx: *mut c_void, out: *mut u8) -> u32 {
    macro_rules! f { ($s:ident, $f:ident) => { res::<T>(at::<T>(p).fetch_update($s, $f, |x| call(cb, ctx, x)), out) } }
    const53!(o, f)
}
// ---- flavor 1: methods, run-time orderings, reference obtained with from_ptr
#[inline(always)]
unsafe fn fp<'a, T: Primitive>(p: *const u8) -> &'a A<T> {
    A::<T>::from_ptr(p as *mut MaybeUninit<T>)
}
unsafe extern "C" fn m1_load<T: AtomicLoad>(p: *const u8, o: u32, out: *mut u8) -> u32 {
    wr::<T>(out, fp::<T>(p).load(ord(o)));
    0
}
unsafe extern "C" fn m1_store<T: AtomicStore>(p: *mut u8, o: u32, v: *const u8) -> u32 {
    fp::<T>(p).store(rd(v), ord(o));
    0
}
unsafe extern "C" fn m1_swap<T: AtomicSwap>(p: *mut u8, o: u32, v: *const u8, out: *mut u8) -> u32 {
    wr::<T>(out, fp::<T>(p).swap(rd(v), ord(o)));
    0
}
unsafe extern "C" fn m1_cas<T: AtomicCompareExchange>(p: *mut u8, o: u32, old: *const u8, new: *const u8, out: *mut u8) -> u32 {
    res::<T>(fp::<T>(p).compare_exchange(rd(old), rd(new), ord(o), ord(o >> 8)), out)
}
unsafe extern "C" fn m1_casw<T: AtomicCompareExchange>(p: *mut u8, o: u32, old: *const u8, new: *const u8, out: *mut u8) -> u32 {
    res::<T>(fp::<T>(p).compare_exchange_weak(rd(old), rd(new), ord(o), ord(o >> 8)), out)
}
unsafe extern "C" fn m1_fu<T: AtomicCompareExchange>(p: *mut u8, o: u32, cb: Cb, ctx: *mut c_void, out: *mut u8) -> u32 {
    res::<T>(fp::<T>(p).fetch_update(ord(o), ord(o >> 8), |x| call(cb, ctx, x)), out)
}
// ---- flavor 2: raw, constant orderings
unsafe extern "C" fn r2_load<T: AtomicLoad>(p: *const u8, o: u32, out: *mut u8) -> u32 {
    macro_rules! f { ($o:ident) => { wr::<T>(out, T::atomic_load(p.cast(), $o)) } }
    const_l!(o, f);
    0
}
unsafe extern "C" fn r2_store<T: AtomicStore>(p: *mut u8, o: u32, v: *const u8) -> u32 {
    macro_rules! f { ($o:ident) => { T::atomic_store(p.cast(), rd(v), $o) } }
    const_s!(o, f);
    0
}
unsafe extern "C" fn r2_swap<T: AtomicSwap>(p: *mut u8, o: u32, v: *const u8, out: *mut u8) -> u32 {
    macro_rules! f { ($o:ident) => { wr::<T>(out, T::atomic_swap(p.cast(), rd(v), $o)) } }
    const5!(o, f);
    0
}
unsafe extern "C" fn r2_cas<T: AtomicCompareExchange>(p: *mut u8, o: u32, old: *const u8, new: *const u8, out: *mut u8) -> u32 {
    macro_rules! f { ($s:ident, $f:ident) => { rawres::<T>(T::atomic_compare_exchange(p.cast(), rd(old), rd(new), $s, $f), out) } }
    const53!(o, f)
}
unsafe extern "C" fn r2_casw<T: AtomicCompareExchange>(p: *mut u8, o: u32, old: *const u8, new: *const u8, out: *mut u8) -> u32 {
    macro_rules! f { ($s:ident, $f:ident) => { rawres::<T>(T::atomic_compare_exchange_weak(p.cast(), rd(old), rd(new), $s, $f), out) } }
    const53!(o, f)
}
// ---- flavor 3: raw, run-time orderings
unsafe extern "C" fn r3_load<T: AtomicLoad>(p: *const u8, o: u32, out: *mut u8) -> u32 {
    wr::<T>(out, T::atomic_load(p.cast(), ord(o)));
    0
}
unsafe extern "C" fn r3_store<T: AtomicStore>(p: *mut u8, o: u32, v: *const u8) -> u32 {
    T::atomic_store(p.cast(), rd(v), ord(o));
    0
}
unsafe extern "C" fn r3_swap<T: AtomicSwap>(p: *mut u8, o: u32, v: *const u8, out: *mut u8) -> u32 {
    wr::<T>(out, T::atomic_swap(p.cast(), rd(v), ord(o)));
    0
}
unsafe extern "C" fn r3_cas<T: AtomicCompareExchange>(p: *mut u8, o: u32, old: *const u8, new: *const u8, out: *mut u8) -> u32 {
    rawres::<T>(T::atomic_compare_exchange(p.cast(), rd(old), rd(new), ord(o), ord(o >> 8)), out)
}
unsafe extern "C" fn r3_casw<T: AtomicCompareExchange>(p: *mut u8, o: u32, old: *const u8, new: *const u8, out: *mut u8) -> u32 {
    rawres::<T>(T::atomic_compare_exchange_weak(p.cast(), rd(old), rd(new), ord(o), ord(o >> 8)), out)
}
// ---- flavors 4/5: any ordering, panics reported as 2 (library) or 3 (injected by the closure)
fn catch(f: impl FnOnce() -> u32) -> u32 {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => if e.is::<Injected>() { 3 } else { 2 },
    }
}
unsafe extern "C" fn c4_load<T: AtomicLoad>(p: *const u8, o: u32, out: *mut u8) -> u32 {
    macro_rules! f { ($o:ident) => { wr::<T>(out, at::<T>(p).load($o)) } }
    catch(|| { const5!(o, f); 0 })
}
unsafe extern "C" fn c4_store<T: AtomicStore>(p: *mut u8, o: u32, v: *const u8) -> u32 {
    macro_rules! f { ($o:ident) => { at::<T>(p).store(rd(v), $o) } }
    catch(|| { const5!(o, f); 0 })
}
unsafe extern "C" fn c4_swap<T: AtomicSwap>(p: *mut u8, o: u32, v: *const u8, out: *mut u8) -> u32 {
    catch(|| m0_swap::<T>(p, o, v, out))
}
unsafe extern "C" fn c4_cas<T: AtomicCompareExchange>(p: *mut u8, o: u32, old: *const u8, new: *const u8, out: *mut u8) -> u32 {
    macro_rules! f { ($s:ident, $f:ident) => { res::<T>(at::<T>(p).compare_exchange(rd(old), rd(new), $s, $f), out) } }
    catch(|| const55!(o, f))
}
unsafe extern "C" fn c4_casw<T: AtomicCompareExchange>(p: *mut u8, o: u32, old: *const u8, new: *const u8, out: *mut u8) -> u32 {
    macro_rules! f { ($s:ident, $f:ident) => { res::<T>(at::<T>(p).compare_exchange_weak(rd(old), rd(new), $s, $f), out) } }
    catch(|| const55!(o, f))
}
unsafe extern "C" fn c4_fu<T: AtomicCompareExchange>(p: *mut u8, o: u32, cb: Cb, ctx: *mut c_void, out: *mut u8) -> u32 {
    macro_rules! f { ($s:ident, $f:ident) => { res::<T>(at::<T>(p).fetch_update($s, $f, |x| call(cb, ctx, x)), out) } }
    catch(|| const55!(o, f))
}
unsafe extern "C" fn c5_load<T: AtomicLoad>(p: *const u8, o: u32, out: *mut u8) -> u32 {
    catch(|| { wr::<T>(out, fp::<T>(p).load(ord(o))); 0 })
}
unsafe extern "C" fn c5_store<T: AtomicStore>(p: *mut u8, o: u32, v: *const u8) -> u32 {
    catch(|| { fp::<T>(p).store(rd(v), ord(o)); 0 })
}
unsafe extern "C" fn c5_swap<T: AtomicSwap>(p: *mut u8, o: u32, v: *const u8, out: *mut u8) -> u32 {
    catch(|| { wr::<T>(out, fp::<T>(p).swap(rd(v), ord(o))); 0 })
}
unsafe extern "C" fn c5_cas<T: AtomicCompareExchange>(p: *mut u8, o: u32, old: *const u8, new: *const u8, out: *mut u8) -> u32 {
    catch(|| res::<T>(fp::<T>(p).compare_exchange(rd(old), rd(new), ord(o), ord(o >> 8)), out))
}
unsafe extern "C" fn c5_casw<T: AtomicCompareExchange>(p: *mut u8, o: u32, old: *const u8, new: *const u8, out: *mut u8) -> u32 {
    catch(|| res::<T>(fp::<T>(p).compare_exchange_weak(rd(old), rd(new), ord(o), ord(o >> 8)), out))
}
unsafe extern "C" fn c5_fu<T: AtomicCompareExchange>(p: *mut u8, o: u32, cb: Cb, ctx: *mut c_void, out: *mut u8) -> u32 {
    catch(|| res::<T>(fp::<T>(p).fetch_update(ord(o), ord(o >> 8), |x| call(cb, ctx, x)), out))
}

// ---- non-atomic API
unsafe extern "C" fn extract<T: Primitive>(kind: u32, p: *mut u8, out: *mut u8) -> usize {
    let a = p as *mut A<T>;
    match kind {
        0 => { wr(out, a.read().into_inner()); p as usize }
        1 => { let r = (*a).get_mut(); wr(out, *r); r as *mut _ as usize }
        2 => { let r = (*a).as_ptr(); wr(out, *r); r as usize }
        3 => { let r = A::<T>::from_ptr(p.cast()); wr(out, *r.as_ptr()); r as *const _ as usize }
        _ => { let r: &A<T> = &*a; let m: MaybeUninit<A<T>> = std::ptr::read((r as *const A<T>).cast()); wr(out, m.assume_init().into_inner()); p as usize }
    }
}
unsafe extern "C" fn inject<T: Primitive>(kind: u32, p: *mut u8, v: *const u8) -> usize {
    let a = p as *mut A<T>;
    match kind {
        0 => { let r = (*a).get_mut(); *r = rd(v); r as *mut _ as usize }
        1 => { let r = (*a).as_ptr(); *r = rd(v); r as usize }
        2 => { let r = A::<T>::from_ptr(p.cast()).as_ptr(); r.write(rd(v)); r as usize }
        _ => { *a = A::new(rd(v)); p as usize }
    }
}
unsafe extern "C" fn debug<T: Primitive>(p: *const u8, out: *mut u8, cap: usize) -> usize {
    let s = format!("{:?}|{:#?}|{:10?}", at::<T>(p), at::<T>(p), at::<T>(p));
    let n = s.len().min(cap);
    std::ptr::copy_nonoverlapping(s.as_ptr(), out, n);
    n
}
mod probe {
    //! Inherent-over-trait method resolution: true iff the bound holds.
    pub struct W<T>(pub std::marker::PhantomData<T>);
    macro_rules! p {
        ($no:ident, $name:ident, $($b:tt)+) => {
            pub trait $no { fn $name(&self) -> bool { false } }
            impl<T> $no for &W<T> {}
            impl<T: $($b)+> W<T> { #[allow(dead_code)] pub fn $name(&self) -> bool { true } }
        };
    }
    p!(N1, is_send, Send);
    p!(N2, is_sync, Sync);
    p!(N3, is_unpin, Unpin);
    p!(N4, is_unwind, std::panic::UnwindSafe);
    p!(N5, is_refunwind, std::panic::RefUnwindSafe);
}

macro_rules! atype {
    ($t:ty, $nm:literal, $swap:tt, $cas:tt) => {{
        use crate::probe::*;
        const PAT: $t = 0x5a as $t;
        static S0: A<$t> = A::<$t>::const_new(MaybeUninit::new(PAT));
        static S1: A<$t> = A::<$t>::new(MaybeUninit::new(PAT));
        static S2: [A<$t>; 3] = [A::<$t>::new(MaybeUninit::new(PAT)), A::<$t>::const_new(MaybeUninit::new(!PAT)), A::<$t>::new(MaybeUninit::new(PAT))];
        const INNER: MaybeUninit<$t> = A::<$t>::new(MaybeUninit::new(PAT)).into_inner();
        static S3: A<$t> = A::<$t>::const_new(INNER);
        extern "C" fn stat(k: u32) -> *const u8 {
            match k { 0 => (&raw const S0).cast(), 1 => (&raw const S1).cast(), 2 => (&raw const S2).cast(), _ => (&raw const S3).cast() }
        }
        unsafe extern "C" fn ctor(kind: u32, v: *const u8, p: *mut u8) {
            let a = p as *mut A<$t>;
            match kind {
                0 => a.write(A::new(rd(v))),
                1 => a.write(A::from(rd::<$t>(v))),
                2 => a.write(A::from(rd::<$t>(v).assume_init())),
                3 => a.write(A::<$t>::const_new(rd(v))),
                _ => a.write(rd::<$t>(v).into()),
            }
        }
        let w = W::<A<$t>>(std::marker::PhantomData);
        let w = &w;
        let auto = (w.is_send() as u32) | (w.is_sync() as u32) << 1 | (w.is_unpin() as u32) << 2 | (w.is_unwind() as u32) << 3 | (w.is_refunwind() as u32) << 4;
        let mut name = [0u8; 8];
        name[..$nm.len()].copy_from_slice($nm);
        TypeOps {
            name,
            size: std::mem::size_of::<$t>() as u32,
            amu_size: std::mem::size_of::<A<$t>>() as u32,
            amu_align: std::mem::align_of::<A<$t>>() as u32,
            avail: atype!(@avail $swap $cas),
            arr_stride: (std::mem::size_of::<[A<$t>; 7]>() / 7) as u32,
            auto_traits: auto,
            fl: atype!(@fl $t, $swap, $cas),
            ctor,
            extract: extract::<$t>,
            inject: inject::<$t>,
            debug: debug::<$t>,
            stat,
        }
    }};
    (@avail yes yes) => { 3 };
    (@avail yes no) => { 1 };
    (@avail no no) => { 0 };
    (@fl $t:ty, no, no) => { [Flavor { load: no_load, store: no_store, swap: no_swap, cas: no_cas, casw: no_cas, fu: no_fu }; FLAVORS] };
    (@fl $t:ty, yes, no) => { [
        Flavor { load: m0_load::<$t>, store: m0_store::<$t>, swap: m0_swap::<$t>, cas: no_cas, casw: no_cas, fu: no_fu },
        Flavor { load: m1_load::<$t>, store: m1_store::<$t>, swap: m1_swap::<$t>, cas: no_cas, casw: no_cas, fu: no_fu },
        Flavor { load: r2_load::<$t>, store: r2_store::<$t>, swap: r2_swap::<$t>, cas: no_cas, casw: no_cas, fu: no_fu },
        Flavor { load: r3_load::<$t>, store: r3_store::<$t>, swap: r3_swap::<$t>, cas: no_cas, casw: no_cas, fu: no_fu },
        Flavor { load: c4_load::<$t>, store: c4_store::<$t>, swap: c4_swap::<$t>, cas: no_cas, casw: no_cas, fu: no_fu },
        Flavor { load: c5_load::<$t>, store: c5_store::<$t>, swap: c5_swap::<$t>, cas: no_cas, casw: no_cas, fu: no_fu },
    ] };
    (@fl $t:ty, yes, yes) => { [
        Flavor { load: m0_load::<$t>, store: m0_store::<$t>, swap: m0_swap::<$t>, cas: m0_cas::<$t>, casw: m0_casw::<$t>, fu: m0_fu::<$t> },
        Flavor { load: m1_load::<$t>, store: m1_store::<$t>, swap: m1_swap::<$t>, cas: m1_cas::<$t>, casw: m1_casw::<$t>, fu: m1_fu::<$t> },
        Flavor { load: r2_load::<$t>, store: r2_store::<$t>, swap: r2_swap::<$t>, cas: r2_cas::<$t>, casw: r2_casw::<$t>, fu: m0_fu::<$t> },
        Flavor { load: r3_load::<$t>, store: r3_store::<$t>, swap: r3_swap::<$t>, cas: r3_cas::<$t>, casw: r3_casw::<$t>, fu: m1_fu::<$t> },
        Flavor { load: c4_load::<$t>, store: c4_store::<$t>, swap: c4_swap::<$t>, cas: c4_cas::<$t>, casw: c4_casw::<$t>, fu: c4_fu::<$t> },
        Flavor { load: c5_load::<$t>, store: c5_store::<$t>, swap: c5_swap::<$t>, cas: c5_cas::<$t>, casw: c5_casw::<$t>, fu: c5_fu::<$t> },
    ] };
}

#[cfg(all(shim_cas, shim_64, shim_128))]
macro_rules! all { () => { vec![
    atype!(i8, b"i8", yes, yes), atype!(u8, b"u8", yes, yes), atype!(i16, b"i16", yes, yes), atype!(u16, b"u16", yes, yes),
    atype!(i32, b"i32", yes, yes), atype!(u32, b"u32", yes, yes), atype!(isize, b"isize", yes, yes), atype!(usize, b"usize", yes, yes),
    atype!(i64, b"i64", yes, yes), atype!(u64, b"u64", yes, yes), atype!(i128, b"i128", yes, yes), atype!(u128, b"u128", yes, yes),
] } }
#[cfg(all(shim_cas, shim_64, not(shim_128)))]
macro_rules! all { () => { vec![
    atype!(i8, b"i8", yes, yes), atype!(u8, b"u8", yes, yes), atype!(i16, b"i16", yes, yes), atype!(u16, b"u16", yes, yes),
    atype!(i32, b"i32", yes, yes), atype!(u32, b"u32", yes, yes), atype!(isize, b"isize", yes, yes), atype!(usize, b"usize", yes, yes),
    atype!(i64, b"i64", yes, yes), atype!(u64, b"u64", yes, yes), atype!(i128, b"i128", no, no), atype!(u128, b"u128", no, no),
] } }
#[cfg(all(shim_cas, not(shim_64)))]
macro_rules! all { () => { vec![
    atype!(i8, b"i8", yes, yes), atype!(u8, b"u8", yes, yes), atype!(i16, b"i16", yes, yes), atype!(u16, b"u16", yes, yes),
    atype!(i32, b"i32", yes, yes), atype!(u32, b"u32", yes, yes), atype!(isize, b"isize", yes, yes), atype!(usize, b"usize", yes, yes),
    atype!(i64, b"i64", no, no), atype!(u64, b"u64", no, no), atype!(i128, b"i128", no, no), atype!(u128, b"u128", no, no),
] } }
#[cfg(not(shim_cas))]
macro_rules! all { () => { vec![
    atype!(i8, b"i8", yes, no), atype!(u8, b"u8", yes, no), atype!(i16, b"i16", yes, no), atype!(u16, b"u16", yes, no),
    atype!(i32, b"i32", yes, no), atype!(u32, b"u32", yes, no), atype!(isize, b"isize", yes, no), atype!(usize, b"usize", yes, no),
    atype!(i64, b"i64", no, no), atype!(u64, b"u64", no, no), atype!(i128, b"i128", no, no), atype!(u128, b"u128", no, no),
] } }

#[no_mangle]
pub extern "C" fn amu_table(n: *mut usize) -> *const TypeOps {
    std::panic::set_hook(Box::new(|_| {}));
    let v: Vec<TypeOps> = all!();
    unsafe { *n = v.len() };
    Box::leak(v.into_boxed_slice()).as_ptr()
}
