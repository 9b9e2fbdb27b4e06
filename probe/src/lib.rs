//! What the crate provides in this build, written as text into a static that the check reads from the object file.
#![no_std]
#![allow(warnings)]
use atomic_maybe_uninit::raw::{AtomicCompareExchange, AtomicLoad, AtomicStore, AtomicSwap, Primitive};
use atomic_maybe_uninit::*;
use core::marker::PhantomData;

struct W<T>(PhantomData<T>);
trait No {
    const PRIM: u8 = b'0';
    const LOAD: u8 = b'0';
    const STORE: u8 = b'0';
    const SWAP: u8 = b'0';
    const CAS: u8 = b'0';
}
impl<T> No for W<T> {}
impl<T: Primitive> W<T> {
    const PRIM: u8 = b'1';
}
impl<T: AtomicLoad> W<T> {
    const LOAD: u8 = b'1';
}
impl<T: AtomicStore> W<T> {
    const STORE: u8 = b'1';
}
impl<T: AtomicSwap> W<T> {
    const SWAP: u8 = b'1';
}
impl<T: AtomicCompareExchange> W<T> {
    const CAS: u8 = b'1';
}
macro_rules! t {
    ($t:ty) => {
        [<W<$t>>::PRIM, <W<$t>>::LOAD, <W<$t>>::STORE, <W<$t>>::SWAP, <W<$t>>::CAS, sz::<$t>(), al::<$t>()]
    };
}
// size and alignment of the atomic, as a letter
const fn sz<T>() -> u8 {
    b'A' + core::mem::size_of::<T>() as u8
}
const fn al<T: Primitive>() -> u8 {
    let a = core::mem::align_of::<AtomicMaybeUninit<T>>();
    if core::mem::size_of::<AtomicMaybeUninit<T>>() != core::mem::size_of::<T>() { b'!' } else { b'A' + a as u8 }
}
macro_rules! m {
    ($has:ident, $no:ident) => {{
        let mut v = [b'0'; 4];
        $has! { v[0] = b'1'; }
        $no! { v[1] = b'1'; }
        // several statements, and nothing
        $has! { let x = 1; v[2] = b'0' + x; }
        $no! { let x = 1; v[3] = b'0' + x; }
        $has! {}
        $no! {}
        v
    }};
}
// item position; the glob import supplies what the macro does not define
mod items {
    mod d {
        pub const H: u8 = b'0';
        pub const N: u8 = b'0';
    }
    macro_rules! i {
        ($has:ident, $no:ident, $m:ident) => {
            pub mod $m {
                use super::d::*;
                use atomic_maybe_uninit::{$has, $no};
                $has! { pub const H: u8 = b'1'; pub fn f() {} }
                $no! { pub const N: u8 = b'1'; pub fn g() {} }
                pub const V: [u8; 2] = [H, N];
            }
        };
    }
    i!(cfg_has_atomic_8, cfg_no_atomic_8, m8);
    i!(cfg_has_atomic_16, cfg_no_atomic_16, m16);
    i!(cfg_has_atomic_32, cfg_no_atomic_32, m32);
    i!(cfg_has_atomic_64, cfg_no_atomic_64, m64);
    i!(cfg_has_atomic_128, cfg_no_atomic_128, m128);
    i!(cfg_has_atomic_ptr, cfg_no_atomic_ptr, mptr);
    i!(cfg_has_atomic_cas, cfg_no_atomic_cas, mcas);
}
#[repr(C)]
pub struct Probe {
    start: [u8; 12],
    types: [[u8; 7]; 12],
    macros: [[u8; 4]; 7],
    items: [[u8; 2]; 7],
    end: [u8; 4],
}
const ITEMS: [[u8; 2]; 7] = [items::m8::V, items::m16::V, items::m32::V, items::m64::V, items::m128::V, items::mptr::V, items::mcas::V];
#[no_mangle]
#[used]
pub static AMU_PROBE: Probe = Probe {
    start: *b"<<AMUPROBE1:",
    types: [t!(i8), t!(u8), t!(i16), t!(u16), t!(i32), t!(u32), t!(i64), t!(u64), t!(i128), t!(u128), t!(isize), t!(usize)],
    macros: [
        m!(cfg_has_atomic_8, cfg_no_atomic_8),
        m!(cfg_has_atomic_16, cfg_no_atomic_16),
        m!(cfg_has_atomic_32, cfg_no_atomic_32),
        m!(cfg_has_atomic_64, cfg_no_atomic_64),
        m!(cfg_has_atomic_128, cfg_no_atomic_128),
        m!(cfg_has_atomic_ptr, cfg_no_atomic_ptr),
        m!(cfg_has_atomic_cas, cfg_no_atomic_cas),
    ],
    items: ITEMS,
    end: *b":>>\n",
};
