//! The shim's table (see /verif/shim/src/lib.rs).
use std::ffi::{c_void, CString};

pub type Cb = unsafe extern "C" fn(*mut c_void, *const u8, *mut u8) -> u32;
pub const FLAVORS: usize = 6;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Flavor {
    pub load: unsafe extern "C" fn(*const u8, u32, *mut u8) -> u32,
    pub store: unsafe extern "C" fn(*mut u8, u32, *const u8) -> u32,
    pub swap: unsafe extern "C" fn(*mut u8, u32, *const u8, *mut u8) -> u32,
    pub cas: unsafe extern "C" fn(*mut u8, u32, *const u8, *const u8, *mut u8) -> u32,
    pub casw: unsafe extern "C" fn(*mut u8, u32, *const u8, *const u8, *mut u8) -> u32,
    pub fu: unsafe extern "C" fn(*mut u8, u32, Cb, *mut c_void, *mut u8) -> u32,
}
#[repr(C)]
pub struct TypeOps {
    pub name: [u8; 8],
    pub size: u32,
    pub amu_size: u32,
    pub amu_align: u32,
    pub avail: u32,
    pub arr_stride: u32,
    pub auto_traits: u32,
    pub fl: [Flavor; FLAVORS],
    pub ctor: unsafe extern "C" fn(u32, *const u8, *mut u8),
    pub extract: unsafe extern "C" fn(u32, *mut u8, *mut u8) -> usize,
    pub inject: unsafe extern "C" fn(u32, *mut u8, *const u8) -> usize,
    pub debug: unsafe extern "C" fn(*const u8, *mut u8, usize) -> usize,
    pub stat: extern "C" fn(u32) -> *const u8,
}
impl TypeOps {
    pub fn name(&self) -> &str {
        let n = self.name.iter().position(|&b| b == 0).unwrap_or(8);
        std::str::from_utf8(&self.name[..n]).unwrap()
    }
    pub fn has_ls(&self) -> bool {
        self.avail & 1 != 0
    }
    pub fn has_cas(&self) -> bool {
        self.avail & 2 != 0
    }
}
pub fn load(path: &str) -> &'static [TypeOps] {
    unsafe {
        let c = CString::new(path).unwrap();
        let h = libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        if h.is_null() {
            let e = std::ffi::CStr::from_ptr(libc::dlerror());
            eprintln!("dlopen: {e:?}");
            std::process::exit(3);
        }
        let f = libc::dlsym(h, c"amu_table".as_ptr());
        assert!(!f.is_null());
        let f: extern "C" fn(*mut usize) -> *const TypeOps = std::mem::transmute(f);
        let mut n = 0;
        let p = f(&mut n);
        std::slice::from_raw_parts(p, n)
    }
}
