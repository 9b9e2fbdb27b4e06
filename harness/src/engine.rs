//! Virtual threads inside one OS thread, driven by signals.
//!
//! Every call of a virtual thread is started by the SIGTRAP handler (arguments, return address and register
//! contents are written into the signal frame), so a call's first and last instruction are known exactly. In
//! single-step mode (x86 trap flag) the handler runs after every instruction, records changes of the watched
//! memory and may switch to another virtual thread; in native mode calls run at full speed. Faults inside a call
//! abort the run and are reported as an outcome.
use libc::{c_int, c_void, siginfo_t, ucontext_t};
use std::mem;

#[cfg(target_arch = "x86_64")]
mod r {
    pub const IP: usize = libc::REG_RIP as usize;
    pub const SP: usize = libc::REG_RSP as usize;
    pub const FL: usize = libc::REG_EFL as usize;
    pub const AX: usize = libc::REG_RAX as usize;
    pub const SAVED: [usize; 6] = [
        libc::REG_RBX as usize,
        libc::REG_RBP as usize,
        libc::REG_R12 as usize,
        libc::REG_R13 as usize,
        libc::REG_R14 as usize,
        libc::REG_R15 as usize,
    ];
    pub const SAVED_NAMES: [&str; 6] = ["rbx", "rbp", "r12", "r13", "r14", "r15"];
    pub const ARGS: [usize; 6] = [
        libc::REG_RDI as usize,
        libc::REG_RSI as usize,
        libc::REG_RDX as usize,
        libc::REG_RCX as usize,
        libc::REG_R8 as usize,
        libc::REG_R9 as usize,
    ];
    pub const SCRATCH: [usize; 9] = [
        libc::REG_RAX as usize,
        libc::REG_RCX as usize,
        libc::REG_RDX as usize,
        libc::REG_RSI as usize,
        libc::REG_RDI as usize,
        libc::REG_R8 as usize,
        libc::REG_R9 as usize,
        libc::REG_R10 as usize,
        libc::REG_R11 as usize,
    ];
    pub const FX: usize = 0;
    pub const NG: usize = 23;
    pub type G = i64;
}
#[cfg(target_arch = "x86")]
mod r {
    pub const IP: usize = libc::REG_EIP as usize;
    pub const SP: usize = libc::REG_ESP as usize;
    pub const FL: usize = libc::REG_EFL as usize;
    pub const AX: usize = libc::REG_EAX as usize;
    pub const SAVED: [usize; 4] =
        [libc::REG_EBX as usize, libc::REG_EBP as usize, libc::REG_ESI as usize, libc::REG_EDI as usize];
    pub const SAVED_NAMES: [&str; 4] = ["ebx", "ebp", "esi", "edi"];
    pub const SCRATCH: [usize; 3] = [libc::REG_EAX as usize, libc::REG_ECX as usize, libc::REG_EDX as usize];
    pub const FX: usize = 112;
    pub const NG: usize = 19;
    pub type G = i32;
}
type Gregs = [r::G; 23];
use r::NG;

const TF: usize = 0x100;
const DF: usize = 0x400;
const STATUS: usize = 0x8d5; // CF PF AF ZF SF OF

std::arch::global_asm!(
    ".globl amu_ret_trap",
    "amu_ret_trap:",
    "int3",
    "ud2",
    ".globl amu_enter",
    "amu_enter:",
    "int3",
    "ret",
);
extern "C" {
    fn amu_ret_trap();
    fn amu_enter();
}

#[derive(Clone)]
struct Ctx {
    g: Gregs,
    fp: Vec<u8>,
}

#[derive(Clone, Copy, Debug)]
pub struct Call {
    pub f: usize,
    pub args: [usize; 5],
}

#[derive(Clone, Debug, Default)]
pub struct CallRec {
    pub inv: u64,
    pub resp: u64,
    pub ret: usize,
    pub steps: u64,
    pub done: bool,
}

pub struct VThread {
    pub calls: Vec<Call>,
    pub rec: Vec<CallRec>,
    started: bool,
    next: usize,
    done: bool,
    ctx: Option<Ctx>,
    stack: *mut u8,
    exp_saved: [usize; 6],
    exp_sp: usize,
}
const STACK: usize = 256 * 1024;

#[derive(Clone, Copy, Debug)]
pub struct Change {
    pub step: u64,
    pub thread: u8,
    pub call: u8,
    pub before: [u8; 64],
    pub img: [u8; 64],
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Done,
    Fault { sig: i32, addr: usize, ip_off: String, thread: usize, call: usize },
    Budget { thread: usize, call: usize, steps: u64 },
    Timeout,
    Abi { thread: usize, call: usize, what: String },
}

pub struct Engine {
    pub vts: Vec<VThread>,
    pub single: bool,
    /// (thread, number of instructions); after the end every thread runs to completion in index order
    pub sched: Vec<(u8, u32)>,
    pub budget: u64,
    pub watch: Option<(*const u8, usize)>,
    pub log: Vec<Change>,
    pub total: u64,
    pub switches: u64,
    pub outcome: Outcome,
    pub check_abi: bool,
    pub garbage: u64,
    /// distinct (thread, call-relative) preemption points of this run
    pub preempt_mid: u64,
    cur: usize,
    spos: usize,
    srem: u32,
    img: [u8; 64],
    running: bool,
    main: Option<Ctx>,
    ticks: u32,
}

static mut ENG: *mut Engine = std::ptr::null_mut();
static mut STACKS: [*mut u8; 8] = [std::ptr::null_mut(); 8];

unsafe fn fp_slice(uc: *mut ucontext_t) -> (*mut u8, usize) {
    let p = (*uc).uc_mcontext.fpregs as *mut u8;
    if p.is_null() {
        return (p, 0);
    }
    let magic = (p.add(r::FX + 464) as *const u32).read_unaligned();
    let ext = (p.add(r::FX + 468) as *const u32).read_unaligned() as usize;
    if magic == 0x46505853 {
        (p, ext)
    } else {
        (p, r::FX + 512)
    }
}
unsafe fn save(uc: *mut ucontext_t, c: &mut Option<Ctx>) {
    let (p, n) = fp_slice(uc);
    let mut g: Gregs = [0; 23];
    std::ptr::copy_nonoverlapping((*uc).uc_mcontext.gregs.as_ptr().cast::<r::G>(), g.as_mut_ptr(), NG);
    match c {
        Some(c) if c.fp.len() == n => {
            c.g = g;
            c.fp.copy_from_slice(std::slice::from_raw_parts(p, n));
        }
        _ => {
            *c = Some(Ctx { g, fp: std::slice::from_raw_parts(p, n).to_vec() });
        }
    }
}
unsafe fn restore(uc: *mut ucontext_t, c: &Ctx) {
    let (p, n) = fp_slice(uc);
    let k = NG;
    std::ptr::copy_nonoverlapping(c.g.as_ptr(), (*uc).uc_mcontext.gregs.as_mut_ptr().cast(), k);
    if n == c.fp.len() {
        std::ptr::copy_nonoverlapping(c.fp.as_ptr(), p, n);
    } else {
        let m = n.min(c.fp.len());
        std::ptr::copy_nonoverlapping(c.fp.as_ptr(), p, m);
    }
}
fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Engine {
    pub fn new(nthreads: usize) -> Box<Engine> {
        let mut vts = vec![];
        for i in 0..nthreads {
            unsafe {
                if STACKS[i].is_null() {
                    let p = libc::mmap(
                        std::ptr::null_mut(),
                        STACK + 8192,
                        libc::PROT_READ | libc::PROT_WRITE,
                        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                        -1,
                        0,
                    ) as *mut u8;
                    libc::mprotect(p.cast(), 4096, libc::PROT_NONE);
                    STACKS[i] = p.add(4096);
                }
                vts.push(VThread {
                    calls: vec![],
                    rec: vec![],
                    started: false,
                    next: 0,
                    done: false,
                    ctx: None,
                    stack: STACKS[i],
                    exp_saved: [0; 6],
                    exp_sp: 0,
                });
            }
        }
        Box::new(Engine {
            vts,
            single: true,
            sched: vec![],
            budget: 200_000,
            watch: None,
            log: vec![],
            total: 0,
            switches: 0,
            outcome: Outcome::Done,
            check_abi: true,
            garbage: 0x1234_5678,
            preempt_mid: 0,
            cur: 0,
            spos: 0,
            srem: 0,
            img: [0; 64],
            running: false,
            main: None,
            ticks: 0,
        })
    }
    pub fn add(&mut self, t: usize, f: usize, args: [usize; 5]) -> usize {
        self.vts[t].calls.push(Call { f, args });
        self.vts[t].rec.push(CallRec::default());
        self.vts[t].calls.len() - 1
    }
    pub fn run(&mut self) -> Outcome {
        install();
        for v in &mut self.vts {
            v.done = v.calls.is_empty();
        }
        self.outcome = Outcome::Done;
        if self.vts.iter().all(|v| v.done) {
            return Outcome::Done;
        }
        if let Some((p, n)) = self.watch {
            unsafe { std::ptr::copy_nonoverlapping(p, self.img.as_mut_ptr(), n) };
        }
        unsafe {
            ENG = self;
            std::sync::atomic::compiler_fence(std::sync::atomic::Ordering::SeqCst);
            amu_enter();
            std::sync::atomic::compiler_fence(std::sync::atomic::Ordering::SeqCst);
            ENG = std::ptr::null_mut();
        }
        self.outcome.clone()
    }

    /// Writes the start of the next call of thread `t` into the frame.
    unsafe fn setup_call(&mut self, t: usize, uc: *mut ucontext_t) {
        let seed = mix(self.garbage ^ ((t as u64) << 32) ^ self.vts[t].next as u64);
        let total = self.total;
        let single = self.single;
        let v = &mut self.vts[t];
        let c = v.calls[v.next];
        v.rec[v.next].inv = total;
        let g = std::slice::from_raw_parts_mut((*uc).uc_mcontext.gregs.as_mut_ptr() as *mut r::G, NG);
        for (i, &s) in r::SAVED.iter().enumerate() {
            let val = mix(seed ^ (i as u64 + 1) * 77) as usize;
            g[s] = val as r::G;
            v.exp_saved[i] = val;
        }
        for (i, &s) in r::SCRATCH.iter().enumerate() {
            g[s] = mix(seed ^ (i as u64 + 100)) as r::G;
        }
        let top = (v.stack as usize + STACK - 256) & !63;
        #[cfg(target_arch = "x86_64")]
        {
            for i in 0..5 {
                g[r::ARGS[i]] = c.args[i] as i64;
            }
            let sp = top - 8;
            *(sp as *mut usize) = amu_ret_trap as *const () as usize;
            g[r::SP] = sp as i64;
            v.exp_sp = sp + 8;
        }
        #[cfg(target_arch = "x86")]
        {
            let sp = top - 4 - 32;
            // sp + 4 is 16-byte aligned
            let sp = ((sp + 4) & !15) - 4;
            *(sp as *mut usize) = amu_ret_trap as *const () as usize;
            for i in 0..5 {
                *((sp + 4 + 4 * i) as *mut usize) = c.args[i];
            }
            g[r::SP] = sp as i32;
            v.exp_sp = sp + 4;
        }
        g[r::IP] = c.f as r::G;
        let mut fl = g[r::FL] as usize & !(STATUS | TF | DF);
        fl |= (mix(seed ^ 999) as usize) & STATUS;
        if single {
            fl |= TF;
        }
        g[r::FL] = fl as r::G;
        // garbage in xmm registers
        let (p, n) = fp_slice(uc);
        if n > r::FX + 512 + 64 {
            let nx = if cfg!(target_arch = "x86_64") { 16 } else { 8 };
            for i in 0..nx * 2 {
                (p.add(r::FX + 160 + 8 * i) as *mut u64).write_unaligned(mix(seed ^ (i as u64 + 5000)));
            }
            let bv = p.add(r::FX + 512) as *mut u64;
            bv.write_unaligned(bv.read_unaligned() | 2);
        }
        v.started = true;
    }
    unsafe fn finish(&mut self, uc: *mut ucontext_t, o: Outcome) {
        self.outcome = o;
        self.running = false;
        let m = self.main.take().unwrap();
        restore(uc, &m);
        self.main = Some(m);
    }
    unsafe fn abi(&self, t: usize, uc: *mut ucontext_t) -> Option<String> {
        let v = &self.vts[t];
        let g = std::slice::from_raw_parts((*uc).uc_mcontext.gregs.as_ptr() as *const r::G, NG);
        for (i, &s) in r::SAVED.iter().enumerate() {
            if g[s] as usize != v.exp_saved[i] {
                return Some(format!(
                    "callee-saved register {} not preserved: {:#x} instead of {:#x}",
                    r::SAVED_NAMES[i], g[s] as usize, v.exp_saved[i]
                ));
            }
        }
        if g[r::SP] as usize != v.exp_sp {
            return Some(format!("stack pointer off by {}", (g[r::SP] as usize).wrapping_sub(v.exp_sp) as isize));
        }
        if g[r::FL] as usize & DF != 0 {
            return Some("direction flag set on return".into());
        }
        let (p, n) = fp_slice(uc);
        if n >= r::FX + 512 {
            let m = &self.main.as_ref().unwrap().fp;
            let mx = |q: *const u8| (q.add(r::FX + 24) as *const u32).read_unaligned() & 0xffc0;
            if mx(p) != mx(m.as_ptr()) {
                return Some("MXCSR control bits changed".into());
            }
            let bv = |q: *const u8| if n > r::FX + 520 { (q.add(r::FX + 512) as *const u64).read_unaligned() } else { 3 };
            let fcw = |q: *const u8| if bv(q) & 1 != 0 { (q.add(r::FX) as *const u16).read_unaligned() } else { 0x37f };
            let ftw = |q: *const u8| if bv(q) & 1 != 0 { *q.add(r::FX + 4) } else { 0 };
            if fcw(p) != fcw(m.as_ptr()) {
                return Some(format!("x87 control word changed: {:#x}", fcw(p)));
            }
            if ftw(p) != 0 {
                return Some(format!("x87 register stack not empty on return: tag {:#x}", ftw(p)));
            }
        }
        None
    }
    fn runnable(&self, t: usize) -> bool {
        t < self.vts.len() && !self.vts[t].done
    }
    /// Which thread runs the next instruction; None when all are done.
    fn pick(&mut self) -> Option<usize> {
        loop {
            if self.srem > 0 && self.runnable(self.cur) {
                self.srem -= 1;
                return Some(self.cur);
            }
            if self.spos < self.sched.len() {
                let (t, n) = self.sched[self.spos];
                self.spos += 1;
                let t = t as usize % self.vts.len();
                if n > 0 && self.runnable(t) {
                    self.cur = t;
                    self.srem = n - 1;
                    return Some(t);
                }
                self.srem = 0;
                continue;
            }
            let t = (0..self.vts.len()).find(|&t| self.runnable(t))?;
            self.cur = t;
            self.srem = u32::MAX;
            return Some(t);
        }
    }
    unsafe fn observe(&mut self, t: usize) {
        if let Some((p, n)) = self.watch {
            let now = std::slice::from_raw_parts(p, n);
            if now != &self.img[..n] {
                let before = self.img;
                self.img[..n].copy_from_slice(now);
                self.log.push(Change { step: self.total, thread: t as u8, call: self.vts[t].next as u8, before, img: self.img });
            }
        }
    }
    unsafe fn trap(&mut self, uc: *mut ucontext_t) {
        if !self.running {
            self.running = true;
            self.ticks = 0;
            save(uc, &mut self.main);
            self.spos = 0;
            self.srem = 0;
            let t = self.pick().unwrap();
            self.cur = t;
            self.setup_call(t, uc);
            return;
        }
        let t = self.cur;
        let ip = (*uc).uc_mcontext.gregs[r::IP] as usize;
        let rt = amu_ret_trap as *const () as usize;
        self.total += 1;
        let k = self.vts[t].next;
        self.vts[t].rec[k].steps += 1;
        if self.single {
            self.observe(t);
        }
        let mut finished = false;
        if ip == rt || ip == rt + 1 {
            let ret = (*uc).uc_mcontext.gregs[r::AX] as usize;
            let rec = &mut self.vts[t].rec[k];
            rec.resp = self.total;
            rec.ret = ret & 0xffff_ffff;
            rec.done = true;
            if self.check_abi {
                if let Some(what) = self.abi(t, uc) {
                    return self.finish(uc, Outcome::Abi { thread: t, call: k, what });
                }
            }
            self.vts[t].next += 1;
            finished = true;
            if self.vts[t].next >= self.vts[t].calls.len() {
                self.vts[t].done = true;
            }
        }
        if self.single && self.total > self.budget {
            let steps = self.vts[t].rec[k].steps;
            return self.finish(uc, Outcome::Budget { thread: t, call: k, steps });
        }
        let nt = match self.pick() {
            None => return self.finish(uc, Outcome::Done),
            Some(x) => x,
        };
        if nt == t {
            if finished {
                self.setup_call(t, uc);
            }
            return;
        }
        self.switches += 1;
        if !finished {
            self.preempt_mid += 1;
        }
        if !self.vts[t].done {
            if finished {
                self.vts[t].started = false;
            } else {
                let mut c = self.vts[t].ctx.take();
                save(uc, &mut c);
                self.vts[t].ctx = c;
            }
        }
        self.cur = nt;
        if self.vts[nt].started {
            let c = self.vts[nt].ctx.take().unwrap();
            restore(uc, &c);
            self.vts[nt].ctx = Some(c);
        } else {
            // a thread's first call, or the call after one at whose end it was switched out
            let m = self.main.take().unwrap();
            restore(uc, &m);
            self.main = Some(m);
            self.setup_call(nt, uc);
        }
    }
}

fn where_is(ip: usize) -> String {
    unsafe {
        let mut d: libc::Dl_info = mem::zeroed();
        if libc::dladdr(ip as *const c_void, &mut d) != 0 && !d.dli_fname.is_null() {
            let n = std::ffi::CStr::from_ptr(d.dli_fname).to_string_lossy().into_owned();
            return format!("{}+{:#x}", n.rsplit('/').next().unwrap(), ip - d.dli_fbase as usize);
        }
    }
    format!("{ip:#x}")
}

unsafe extern "C" fn on_trap(_s: c_int, _i: *mut siginfo_t, uc: *mut c_void) {
    if ENG.is_null() {
        libc::_exit(97);
    }
    (*ENG).trap(uc.cast());
}
unsafe extern "C" fn on_fault(s: c_int, i: *mut siginfo_t, uc: *mut c_void) {
    if ENG.is_null() || !(*ENG).running {
        libc::signal(s, libc::SIG_DFL);
        return;
    }
    let e = &mut *ENG;
    let t = e.cur;
    let k = e.vts[t].next;
    let ip = (*uc.cast::<ucontext_t>()).uc_mcontext.gregs[r::IP] as usize;
    let addr = (*i).si_addr() as usize;
    e.finish(uc.cast(), Outcome::Fault { sig: s, addr, ip_off: where_is(ip), thread: t, call: k });
}
unsafe extern "C" fn on_alarm(_s: c_int, _i: *mut siginfo_t, uc: *mut c_void) {
    if ENG.is_null() || !(*ENG).running || (*ENG).single {
        return;
    }
    let e = &mut *ENG;
    e.ticks += 1;
    if e.ticks >= 8 {
        e.finish(uc.cast(), Outcome::Timeout);
    }
}

pub fn install() {
    static mut DONE: bool = false;
    unsafe {
        if DONE {
            return;
        }
        DONE = true;
        let n = 1 << 20;
        let p = libc::mmap(
            std::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        let st = libc::stack_t { ss_sp: p, ss_flags: 0, ss_size: n };
        assert_eq!(libc::sigaltstack(&st, std::ptr::null_mut()), 0);
        let set = |sig, f: unsafe extern "C" fn(c_int, *mut siginfo_t, *mut c_void), extra| {
            let mut a: libc::sigaction = mem::zeroed();
            a.sa_sigaction = f as *const () as usize;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | extra;
            libc::sigemptyset(&mut a.sa_mask);
            libc::sigaddset(&mut a.sa_mask, libc::SIGALRM);
            assert_eq!(libc::sigaction(sig, &a, std::ptr::null_mut()), 0);
        };
        set(libc::SIGTRAP, on_trap, 0);
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
            set(s, on_fault, 0);
        }
        set(libc::SIGALRM, on_alarm, libc::SA_RESTART);
        let it = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 1, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: 1, tv_usec: 0 },
        };
        // libc 0.2 has no setitimer binding on every target: declare it here.
        extern "C" {
            fn setitimer(which: c_int, new: *const libc::itimerval, old: *mut libc::itimerval) -> c_int;
        }
        assert_eq!(setitimer(0, &it, std::ptr::null_mut()), 0);
    }
}

/// Runs `f` on a virtual thread at full speed; faults become outcomes. A run that hits the CPU time limit is
/// repeated instruction by instruction, so that non-termination is judged by a number of steps, not by a clock.
pub fn guarded<T>(f: impl Fn() -> T) -> Result<T, Outcome> {
    struct Slot<'a, F, T> {
        f: &'a F,
        out: Option<std::thread::Result<T>>,
    }
    unsafe extern "C" fn tramp<F: Fn() -> T, T>(s: *mut Slot<F, T>) -> u32 {
        let f = (*s).f;
        (*s).out = Some(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)));
        0
    }
    fn go<F: Fn() -> T, T>(s: *mut Slot<F, T>, single: bool) -> Outcome {
        let mut e = Engine::new(1);
        e.single = single;
        e.budget = 2_000_000;
        e.check_abi = false;
        e.add(0, tramp::<F, T> as *const () as usize, [s as usize, 0, 0, 0, 0]);
        e.run()
    }
    let mut s = Slot { f: &f, out: None };
    let mut o = go(&mut s, false);
    if o == Outcome::Timeout {
        s.out = None;
        o = go(&mut s, true);
    }
    match o {
        Outcome::Done => match s.out.take().unwrap() {
            Ok(v) => Ok(v),
            Err(p) => std::panic::resume_unwind(p),
        },
        o => Err(o),
    }
}
