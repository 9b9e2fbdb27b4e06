//! Runs generated operation sequences under Memcheck and reports, after every call, the bytes and the shadow (definedness) bits
//! of the result and of the cell's surroundings, and how many errors Memcheck counted during the call. See /verif/eng_vbits.py.
use shim::{Flavor, TypeOps};
use std::ffi::c_void;
use std::io::{Read, Write};

/// Memory that Memcheck always considers initialised (libc's own malloc is not recognised in a static binary).
struct Bump;
const HEAP: usize = 192 << 20;
#[repr(C, align(4096))]
struct Heap(std::cell::UnsafeCell<[u8; HEAP]>);
unsafe impl Sync for Heap {}
static MEM: Heap = Heap(std::cell::UnsafeCell::new([0; HEAP]));
static TOP: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let t = (TOP.load(std::sync::atomic::Ordering::Relaxed) + l.align() - 1) & !(l.align() - 1);
        if t + l.size() > HEAP { return std::ptr::null_mut(); }
        TOP.store(t + l.size(), std::sync::atomic::Ordering::Relaxed);
        (MEM.0.get() as *mut u8).add(t)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let t = p as usize - MEM.0.get() as usize;
        if t + l.size() == TOP.load(std::sync::atomic::Ordering::Relaxed) { TOP.store(t, std::sync::atomic::Ordering::Relaxed); }
    }
}
#[global_allocator]
static A: Bump = Bump;

#[inline(never)]
fn request(args: &[usize; 6]) -> usize {
    let mut r: usize = 0;
    unsafe {
        #[cfg(target_arch = "x86_64")]
        std::arch::asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx", inout("rdi") 0usize => _, in("rax") args.as_ptr(), inout("rdx") r);
        #[cfg(target_arch = "x86")]
        std::arch::asm!("rol edi, 3", "rol edi, 13", "rol edi, 29", "rol edi, 19", "xchg ebx, ebx", inout("edi") 0usize => _, in("eax") args.as_ptr(), inout("edx") r);
    }
    r
}
const MC: usize = 0x4d43_0000;
fn undefined(p: *mut u8, n: usize) { request(&[MC + 1, p as usize, n, 0, 0, 0]); }
fn defined(p: *const u8, n: usize) { request(&[MC + 2, p as usize, n, 0, 0, 0]); }
fn get_vbits(p: *const u8, v: *mut u8, n: usize) { let r = request(&[MC + 8, p as usize, v as usize, n, 0, 0]); assert!(r == 1, "GET_VBITS {r}"); }
fn set_vbits(p: *mut u8, v: *const u8, n: usize) { let r = request(&[MC + 9, p as usize, v as usize, n, 0, 0]); assert!(r == 1); }
fn errors() -> usize { request(&[0x1201, 0, 0, 0, 0, 0]) }

#[repr(C, align(64))]
#[derive(Clone, Copy)]
struct Line([u8; 64]);
/// bytes with their shadow
#[derive(Clone, Copy)]
#[repr(C, align(16))]
struct B16([u8; 16]);

struct In<'a>(&'a [u8], usize);
impl In<'_> {
    fn u8(&mut self) -> u8 { self.1 += 1; self.0[self.1 - 1] }
    fn u16(&mut self) -> u16 { self.u8() as u16 | (self.u8() as u16) << 8 }
    fn line<const N: usize>(&mut self) -> [u8; N] { let mut r = [0; N]; r.copy_from_slice(&self.0[self.1..self.1 + N]); self.1 += N; r }
}
#[derive(Clone, Copy)]
struct Val { b: B16, v: B16 }
impl Val {
    fn read(i: &mut In) -> Val { Val { b: B16(i.line()), v: B16(i.line()) } }
    fn put(&self, p: *mut u8, n: usize) {
        for i in 0..n {
            unsafe { p.add(i).write_volatile(self.b.0[i]) }
        }
        set_vbits(p, self.v.0.as_ptr(), n);
    }
}
struct Fu { steps: Vec<(Option<Val>, Option<Val>)>, at: usize, cell: *mut u8, n: usize, seen: Vec<(B16, B16)> }
unsafe extern "C" fn cb(ctx: *mut c_void, prev: *const u8, next: *mut u8) -> u32 {
    let f = &mut *(ctx as *mut Fu);
    let (mut b, mut v) = (B16([0; 16]), B16([0; 16]));
    get_vbits(prev, v.0.as_mut_ptr(), f.n);
    for i in 0..f.n { b.0[i] = prev.add(i).read_volatile(); }
    f.seen.push((b, v));
    let (w, r) = f.steps[f.at.min(f.steps.len() - 1)];
    let w = if f.at >= f.steps.len() { None } else { w };
    f.at += 1;
    if let Some(w) = w { w.put(f.cell, f.n); }
    match r {
        None => 0,
        Some(x) => { x.put(next, f.n); 1 }
    }
}

fn main() {
    let mut buf = vec![];
    std::io::stdin().read_to_end(&mut buf).unwrap();
    let mut n = 0;
    let t: &[TypeOps] = unsafe { let p = shim::amu_table(&mut n); std::slice::from_raw_parts(p, n) };
    let mut out: Vec<u8> = Vec::with_capacity(48 << 20);
    if request(&[0x1001, 0, 0, 0, 0, 0]) == 0 { eprintln!("not under valgrind"); std::process::exit(4); }
    let mut i = In(&buf, 0);
    let mem = Box::leak(Box::new(Line([0; 64]))) as *mut Line as *mut u8;
    let arg = Box::leak(Box::new([B16([0; 16]); 4])) as *mut _ as *mut u8;
    while i.1 < buf.len() {
        let ops = &t[i.u8() as usize];
        let sz = ops.size as usize;
        let off = i.u8() as usize * sz;
        assert!(off + sz <= 64);
        let lb: [u8; 64] = i.line();
        let lv: [u8; 64] = i.line();
        for k in 0..64 { unsafe { mem.add(k).write_volatile(lb[k]) } }
        set_vbits(mem, lv.as_ptr(), 64);
        let cell = unsafe { mem.add(off) };
        let nops = i.u16();
        for _ in 0..nops {
            let (kind, fl, o) = (i.u8(), i.u8(), i.u16() as u32);
            let fl: &Flavor = &ops.fl[fl as usize % 6];
            let (e, w) = (Val::read(&mut i), Val::read(&mut i));
            let pe = arg;
            let pw = unsafe { arg.add(16) };
            let po = unsafe { arg.add(32) };
            undefined(arg, 64);
            e.put(pe, sz);
            w.put(pw, sz);
            let mut fu = Fu { steps: vec![], at: 0, cell, n: sz, seen: vec![] };
            if kind == 5 {
                for _ in 0..i.u8() {
                    let f = i.u8();
                    let (a, b) = (Val::read(&mut i), Val::read(&mut i));
                    fu.steps.push(((f & 1 != 0).then_some(a), (f & 2 != 0).then_some(b)));
                }
            }
            let mut dbg = [0u8; 160];
            let mut dn = 0;
            let e0 = errors();
            let ret: u32 = unsafe {
                match kind {
                    0 => (fl.load)(cell, o, po),
                    1 => (fl.store)(cell, o, pw),
                    2 => (fl.swap)(cell, o, pw, po),
                    3 => (fl.cas)(cell, o, pe, pw, po),
                    4 => (fl.casw)(cell, o, pe, pw, po),
                    5 => (fl.fu)(cell, o, cb, (&raw mut fu).cast(), po),
                    6 => { (ops.ctor)(o, pw, cell); 0 }
                    7 => ((ops.extract)(o, cell, po) != cell as usize) as u32,
                    8 => ((ops.inject)(o, cell, pw) != cell as usize) as u32,
                    _ => { dn = (ops.debug)(cell, dbg.as_mut_ptr(), dbg.len()); 0 }
                }
            };
            let de = errors() - e0;
            let (mut ov, mut mv, mut rv) = (B16([0; 16]), Line([0; 64]), [0u8; 4]);
            let mut rr = ret;
            get_vbits((&raw const rr).cast(), rv.as_mut_ptr(), 4);
            defined((&raw const rr).cast(), 4);
            rr = unsafe { (&raw const rr).read_volatile() };
            out.push(rr as u8);
            out.push(rv.iter().any(|&x| x != 0) as u8);
            out.push(de.min(255) as u8);
            get_vbits(po, ov.0.as_mut_ptr(), sz);
            defined(po, sz);
            for k in 0..16 { out.push(if k < sz { unsafe { po.add(k).read_volatile() } } else { 0 }); }
            out.extend(ov.0);
            get_vbits(mem, mv.0.as_mut_ptr(), 64);
            defined(mem, 64);
            for k in 0..64 { out.push(unsafe { mem.add(k).read_volatile() }); }
            set_vbits(mem, mv.0.as_ptr(), 64);
            out.extend(mv.0);
            if kind == 5 {
                out.push(fu.seen.len() as u8);
                for (b, v) in &mut fu.seen {
                    defined(b.0.as_ptr(), 16);
                    out.extend(b.0);
                    out.extend(v.0);
                }
            }
            if kind == 9 {
                let mut v = [0u8; 160];
                get_vbits(dbg.as_ptr(), v.as_mut_ptr(), 160);
                defined(dbg.as_ptr(), 160);
                out.push(dn as u8);
                out.extend(&dbg[..dn]);
                out.push(v[..dn].iter().any(|&x| x != 0) as u8);
            }
        }
    }
    std::io::stdout().write_all(&out).unwrap();
}
