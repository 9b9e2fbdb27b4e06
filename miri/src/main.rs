//! Interprets generated sequences of the non-atomic API under Miri (no inline assembly runs here). A case is a list of numbers, read as
//! choices; the model is one optional byte per byte of the cell (None: uninitialised). See /verif/eng_miri.py.
use atomic_maybe_uninit::{raw::Primitive, AtomicMaybeUninit as A};
use std::mem::MaybeUninit as M;

type B = [Option<u8>; 16];
struct Ch<'a>(&'a [u32], usize);
impl Ch<'_> {
    fn n(&mut self, n: u32) -> u32 {
        let v = self.0.get(self.1).copied().unwrap_or(0);
        self.1 += 1;
        v % n
    }
    fn end(&self) -> bool { self.1 >= self.0.len() }
}
fn val<T>(c: &mut Ch) -> (M<T>, B) {
    let n = std::mem::size_of::<T>();
    let mut b = [None; 16];
    let (k, s) = (c.n(5), c.n(1 << 20));
    for i in 0..n {
        let x = (s as u64 * (i as u64 + 3)).wrapping_mul(2654435761) >> 7;
        b[i] = match k {
            0 => None,
            1 => Some(x as u8),
            2 => if i % 2 == (s & 1) as usize { Some(x as u8) } else { None },
            3 => if (s >> i) & 1 == 1 { Some(x as u8) } else { None },
            _ => if i < (s as usize % (n + 1)) { Some(x as u8) } else { None },
        };
    }
    (make(&b), b)
}
fn make<T>(b: &B) -> M<T> {
    let mut m = M::<T>::uninit();
    for i in 0..std::mem::size_of::<T>() {
        if let Some(x) = b[i] { unsafe { m.as_mut_ptr().cast::<u8>().add(i).write(x) } }
    }
    m
}
#[track_caller]
fn same<T>(m: &M<T>, b: &B) {
    for i in 0..std::mem::size_of::<T>() {
        if let Some(x) = b[i] {
            let y = unsafe { m.as_ptr().cast::<u8>().add(i).read() };
            assert!(x == y, "byte {i} is {y:#x}, expected {x:#x}");
        }
    }
}
trait Ext: Primitive + Send + 'static { fn konst() -> (A<Self>, B); fn stat() -> (&'static A<Self>, B); fn from_val(v: Self) -> A<Self>; fn kn(v: M<Self>) -> A<Self>; }
macro_rules! ext { ($($t:ty)*) => { $(impl Ext for $t {
    fn konst() -> (A<Self>, B) {
        const C: A<$t> = A::<$t>::const_new(M::new(0x35 as $t));
        const D: M<$t> = A::<$t>::const_new(M::new(0x35 as $t)).into_inner();
        let mut b = [Some(0); 16];
        b[if cfg!(target_endian = "little") { 0 } else { std::mem::size_of::<$t>() - 1 }] = Some(0x35);
        same(&D, &b);
        (C, b)
    }
    fn stat() -> (&'static A<Self>, B) {
        static S: A<$t> = A::<$t>::const_new(M::new(0x35 as $t));
        let (_, b) = Self::konst();
        (&S, b)
    }
    fn from_val(v: Self) -> A<Self> { A::from(v) }
    fn kn(v: M<Self>) -> A<Self> { A::<$t>::const_new(v) }
})* } }
ext!(i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 isize usize);

fn ctor<T: Ext>(c: &mut Ch) -> (A<T>, B) {
    match c.n(6) {
        0 => { let (v, b) = val::<T>(c); (A::new(v), b) }
        1 => { let (v, b) = val::<T>(c); (A::from(v), b) }
        2 => {
            let (_, mut b) = val::<T>(c);
            for x in &mut b { x.get_or_insert(0x77); }
            (T::from_val(unsafe { make::<T>(&b).assume_init() }), b)
        }
        3 => { let (v, b) = val::<T>(c); (T::kn(v), b) }
        4 => { let (v, b) = val::<T>(c); (v.into(), b) }
        _ => T::konst(),
    }
}
/// Accesses through shared references and pointers obtained from them.
fn shared<T: Ext>(r: &A<T>, b: &mut B, c: &mut Ch) {
    let r2 = r;
    let mut ps: Vec<*mut M<T>> = vec![r.as_ptr()];
    for _ in 0..c.n(6) {
        match c.n(8) {
            0 => ps.push(r2.as_ptr()),
            1 => { let p = ps[c.n(ps.len() as u32) as usize]; let (v, nb) = val::<T>(c); unsafe { p.write(v) }; *b = nb; }
            2 => { let p = ps[c.n(ps.len() as u32) as usize]; same(&unsafe { p.read() }, b); }
            3 => fmt(r),
            4 => { let p = ps[c.n(ps.len() as u32) as usize]; let f: &A<T> = unsafe { A::from_ptr(p) }; assert!(f.as_ptr() == r.as_ptr()); ps.push(f.as_ptr()); fmt(f); }
            5 => {
                // one byte through the pointer
                let p = ps[c.n(ps.len() as u32) as usize];
                let i = c.n(std::mem::size_of::<T>() as u32) as usize;
                let x = c.n(256) as u8;
                unsafe { p.cast::<u8>().add(i).write(x) };
                b[i] = Some(x);
            }
            6 => { let p = ps[c.n(ps.len() as u32) as usize]; unsafe { same(&*p, b) } }
            _ => {
                let p = ps[c.n(ps.len() as u32) as usize];
                let f: &A<T> = unsafe { A::from_ptr(p) };
                let g: &A<T> = unsafe { A::from_ptr(r.as_ptr()) };
                let (v, nb) = val::<T>(c);
                unsafe { f.as_ptr().write(v) };
                *b = nb;
                same(&unsafe { g.as_ptr().read() }, b);
            }
        }
    }
    for p in ps { same(&unsafe { p.read() }, b); }
}
fn fmt<T: Ext>(r: &A<T>) {
    let s = format!("{r:?}");
    assert!(s.contains("AtomicMaybeUninit"), "Debug printed {s}");
}
fn owned<T: Ext>(a: &mut A<T>, b: &mut B, c: &mut Ch) {
    match c.n(10) {
        0 => { let (v, nb) = val::<T>(c); *a.get_mut() = v; *b = nb; }
        1 => same(a.get_mut(), b),
        2 => {
            let i = c.n(std::mem::size_of::<T>() as u32) as usize;
            let x = c.n(256) as u8;
            let m = a.get_mut();
            unsafe { m.as_mut_ptr().cast::<u8>().add(i).write(x) };
            b[i] = Some(x);
        }
        3 => shared(a, b, c),
        4 => {
            let q = a.get_mut() as *mut M<T>;
            let f: &A<T> = unsafe { A::from_ptr(q) };
            shared(f, b, c);
            same(&unsafe { q.read() }, b);
        }
        5 => {
            let (n, nb) = ctor::<T>(c);
            let old = std::mem::replace(a, n);
            same(&old.into_inner(), b);
            *b = nb;
        }
        6 => fmt(a),
        7 => {
            let (v, nb) = val::<T>(c);
            let bx = Box::new(std::mem::replace(a, A::new(v)));
            fmt(&*bx);
            *a = *bx;
            let _ = nb;
        }
        8 => {
            let n: Vec<u32> = (0..c.n(6)).map(|_| c.n(1 << 20)).collect();
            let mut nb = *b;
            let (r, s) = (&*a, &mut nb);
            std::thread::scope(|t| { t.spawn(move || shared(r, s, &mut Ch(&n, 0))); });
            *b = nb;
        }
        _ => { let p = a.as_ptr(); let (v, nb) = val::<T>(c); unsafe { p.write(v) }; *b = nb; same(a.get_mut(), b); }
    }
}
#[repr(C)]
struct S<T: Ext> { x: u8, a: A<T>, y: u8, b: A<T>, z: u8 }
fn case<T: Ext>(c: &mut Ch) {
    assert!(std::mem::size_of::<A<T>>() == std::mem::size_of::<T>() && std::mem::align_of::<A<T>>() == std::mem::size_of::<T>());
    let k = c.n(7);
    match k {
        0 => {
            let (mut a, mut b) = ctor::<T>(c);
            while !c.end() { owned(&mut a, &mut b, c); }
            same(&a.into_inner(), &b);
        }
        1 => {
            let (a, mut b) = ctor::<T>(c);
            let mut a = Box::new(a);
            while !c.end() { owned(&mut a, &mut b, c); }
            same(&(*a).into_inner(), &b);
        }
        2 => {
            let ((a, ab), (d, db), (e, eb)) = (ctor::<T>(c), ctor::<T>(c), ctor::<T>(c));
            let (mut a, mut b) = ([a, d, e], [ab, db, eb]);
            while !c.end() { let i = c.n(3) as usize; owned(&mut a[i], &mut b[i], c); }
            for (a, b) in a.into_iter().zip(b) { same(&a.into_inner(), &b); }
        }
        3 => {
            let ((a, mut ab), (d, mut db)) = (ctor::<T>(c), ctor::<T>(c));
            let mut s = S { x: 1, a, y: 2, b: d, z: 3 };
            while !c.end() { if c.n(2) == 0 { owned(&mut s.a, &mut ab, c) } else { owned(&mut s.b, &mut db, c) } }
            assert!((s.x, s.y, s.z) == (1, 2, 3));
            same(&s.a.into_inner(), &ab);
            same(&s.b.into_inner(), &db);
        }
        4 => {
            // a plain buffer seen through from_ptr
            let mut buf = [M::<u128>::uninit(); 4];
            let n = 16 / std::mem::size_of::<T>();
            let p = buf.as_mut_ptr().cast::<M<T>>();
            let i = c.n(4 * n as u32) as usize;
            let q = unsafe { p.add(i) };
            let (v, mut b) = val::<T>(c);
            unsafe { q.write(v) };
                                    if q as usize % std::mem::size_of::<T>() == 0 {
                while !c.end() { let f: &A<T> = unsafe { A::from_ptr(q) }; shared(f, &mut b, c); same(&unsafe { q.read() }, &b); c.n(2); }
            }
        }
        5 => {
            // pointers keep their provenance inside a usize-sized cell
            let target = Box::new(c.n(1 << 20));
            let p: *const u32 = &*target;
            let v: M<usize> = unsafe { std::mem::transmute(M::new(p)) };
            let mut a = match c.n(3) { 0 => A::new(v), 1 => A::from(v), _ => A::<usize>::const_new(v) };
            let w: M<usize> = match c.n(4) { 0 => *a.get_mut(), 1 => unsafe { *a.as_ptr() }, 2 => unsafe { let r: &A<usize> = A::from_ptr(a.as_ptr()); r.as_ptr().read() }, _ => a.into_inner() };
            let q: M<*const u32> = unsafe { std::mem::transmute(w) };
            assert!(unsafe { *q.assume_init() } == *target);
        }
        _ => {
            let (s, b) = T::stat();
            same(&unsafe { s.as_ptr().read() }, &b);
            fmt(s);
            let (mut a, mut b) = T::konst();
            while !c.end() { owned(&mut a, &mut b, c); }
        }
    }
}
fn main() {
    for a in std::env::args().skip(1) {
        println!("case {a}");
        let v: Vec<u32> = a.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        let mut c = Ch(&v, 0);
        match c.n(12) {
            0 => case::<i8>(&mut c), 1 => case::<u8>(&mut c), 2 => case::<i16>(&mut c), 3 => case::<u16>(&mut c),
            4 => case::<i32>(&mut c), 5 => case::<u32>(&mut c), 6 => case::<i64>(&mut c), 7 => case::<u64>(&mut c),
            8 => case::<i128>(&mut c), 9 => case::<u128>(&mut c), 10 => case::<isize>(&mut c), _ => case::<usize>(&mut c),
        }
    }
    println!("end");
}
