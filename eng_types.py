"""C16: generated programs, accepted or rejected by the compiler. Programs of documented uses must compile, and what they compute
in const evaluation must be what a model says; programs one step outside must be rejected while their twin without that step compiles."""
import glob, os, random, shutil, tempfile
from vlib import *
import vlib
from variants import BASE
INTS = {'i8': 8, 'u8': 8, 'i16': 16, 'u16': 16, 'i32': 32, 'u32': 32, 'i64': 64, 'u64': 64, 'i128': 128, 'u128': 128, 'isize': 0, 'usize': 0}
USE = ['x64', 'x64cx16', 'x64leg', 'i686', 'i686leg']
HEAD = '''#![allow(warnings)]
use atomic_maybe_uninit::{raw, AtomicMaybeUninit as A};
use core::{mem::MaybeUninit as M, sync::atomic::Ordering as O};
'''
LOAD = ['Relaxed', 'Acquire', 'SeqCst']
STORE = ['Relaxed', 'Release', 'SeqCst']
ALL = ['Relaxed', 'Acquire', 'Release', 'AcqRel', 'SeqCst']

def crate(v):
    """The crate as a dependency: rustc arguments to use it"""
    def go():
        b = BASE[v]
        td = f'{TARGET}/types-{v}'
        rc, out, err = run(['cargo', 'build', '--offline', '-q', '--target', b['target'], '--manifest-path', f'{ROOT}/types/Cargo.toml'], env={'CARGO_TARGET_DIR': td, 'RUSTFLAGS': b['flags']})
        if rc:
            raise ToolError(f'the crate does not build ({v}): {err[-800:]}')
        deps = f'{td}/{b["target"]}/debug/deps'
        lib = max(glob.glob(f'{deps}/libatomic_maybe_uninit-*.rlib'), key=os.path.getmtime)
        return ['--target', b['target'], '--extern', f'atomic_maybe_uninit={lib}', '-L', f'dependency={deps}'] + b['flags'].split()
    return once(('types', v), go)

def compile_(v, edition, src):
    """None if it compiles, else the first error"""
    d = tempfile.mkdtemp(prefix='types', dir=WORK)
    try:
        open(f'{d}/p.rs', 'w').write(HEAD + src)
        rc, out, err = run(['rustc', '--edition', edition, '--crate-type', 'lib', '--crate-name', 'p', '--emit=metadata', '-o', f'{d}/p.rmeta', f'{d}/p.rs'] + crate(v), timeout=120)
        if rc == 0:
            return None
        if rc != 1 or 'internal compiler error' in err or 'error' not in err:
            raise ToolError(f'rustc ended with {rc}: {err[-500:]}')
        return next(l for l in err.splitlines() if l.startswith('error'))
    finally:
        shutil.rmtree(d, ignore_errors=True)

def width(v, t):
    return INTS[t] or (64 if BASE[v]['target'].startswith('x86_64') else 32)
def val(r, v, t):
    n = width(v, t)
    x = r.choice([r.getrandbits(n), 0, (1 << n) - 1, 1 << n - 1, r.getrandbits(8)])
    if t[0] == 'i' and x >> n - 1:
        x -= 1 << n
    return x
def lit(x, t):
    return f'({x + 1}{t} - 1)' if x < 0 else f'{x}{t}'
def atomics(v):
    """types with every operation in this build"""
    return [t for t in INTS if width(v, t) <= 32 or width(v, t) == 64 and BASE[v]['s64'] or width(v, t) == 128 and BASE[v]['s128']]

# --- documented uses; each item is independent (names end in its number)
def i_const(r, v, k):
    """const evaluation of the functions that are const, against a variable"""
    t = r.choice(list(INTS))
    x = val(r, v, t)
    s = [f'let mut a = A::<{t}>::{r.choice(["new", "const_new"])}(M::new({lit(x, t)}));']
    for _ in range(r.randint(1, 6)):
        c = r.randrange(8)
        y = val(r, v, t)
        if c == 0: s.append(f'*a.get_mut() = M::new({lit(y, t)});'); x = y
        elif c == 1: s.append('a = A::new(a.into_inner());')
        elif c == 2: s.append(f'a = A::<{t}>::const_new(a.into_inner());')
        elif c == 3: s.append(f'assert!(unsafe {{ (*a.get_mut()).assume_init() }} == {lit(x, t)});')
        elif c == 4: s.append(f'unsafe {{ *a.as_ptr() = M::new({lit(y, t)}); }}'); x = y
        elif c == 5: s.append(f'assert!(unsafe {{ (*a.as_ptr()).assume_init() }} == {lit(x, t)});')
        elif c == 6: s.append(f'let mut m = M::new({lit(x, t)}); {{ let q = unsafe {{ A::from_ptr(&mut m) }}; unsafe {{ *q.as_ptr() = M::new({lit(y, t)}); }} }} assert!(unsafe {{ m.assume_init() }} == {lit(y, t)});' if width(v, t) < 64 or align_ok(v, t) else f'let m = M::new({lit(x, t)});')
        else: s.append(f'let b = [A::<{t}>::new(M::uninit()), A::new(a.into_inner())]; let [_b0, b1] = b; a = b1;')
    s.append(f'assert!(unsafe {{ a.into_inner().assume_init() }} == {lit(x, t)});')
    return f'const _: () = {{ {" ".join(s)} }};\n'
def align_ok(v, t):
    return BASE[v]['target'].startswith('x86_64')
def i_static(r, v, k):
    t = r.choice(list(INTS))
    x = lit(val(r, v, t), t)
    e = r.choice([f'A::new(M::new({x}))', f'A::<{t}>::const_new(M::new({x}))', f'A::<{t}>::new(M::uninit())', f'A::<{t}>::const_new(M::<{t}>::uninit())'])
    c = r.randrange(4)
    if c == 0: return f'static S{k}: A<{t}> = {e};\n'
    if c == 1: return f'static S{k}: [A<{t}>; 2] = [{e}, {e}];\n'
    if c == 2: return f'struct W{k} {{ x: u8, a: A<{t}> }} static S{k}: W{k} = W{k} {{ x: 1, a: {e} }};\n'
    return f'const C{k}: M<{t}> = {e}.into_inner(); static S{k}: A<{t}> = A::new(C{k});\n'
def i_layout(r, v, k):
    t = r.choice(list(INTS))
    n = width(v, t) // 8
    o = ' assert!(core::mem::size_of::<Option<A<%s>>>() > %d);' % (t, n)
    return f'const _: () = {{ assert!(core::mem::size_of::<A<{t}>>() == {n}); assert!(core::mem::align_of::<A<{t}>>() == {n});{o} assert!(core::mem::size_of::<[A<{t}>; 3]>() == {3 * n}); }};\n'
def i_generic(r, v, k):
    l, s, a, f = r.choice(LOAD), r.choice(STORE), r.choice(ALL), r.choice(LOAD)
    b, e = r.choice([
        ('AtomicLoad', f'a.load(O::{l})'), ('AtomicStore', f'{{ a.store(x, O::{s}); x }}'),
        ('AtomicSwap', f'a.swap(x, O::{a})'), ('AtomicSwap', f'{{ a.store(a.load(O::{l}), O::{s}); x }}'),
        ('AtomicCompareExchange', f'match a.compare_exchange(x, x, O::{a}, O::{f}) {{ Ok(y) => y, Err(y) => y }}'),
        ('AtomicCompareExchange', f'match a.compare_exchange_weak(x, x, O::{a}, O::{f}) {{ Ok(y) => y, Err(y) => y }}'),
        ('AtomicCompareExchange', f'match a.fetch_update(O::{a}, O::{f}, |y| Some(y)) {{ Ok(y) => y, Err(y) => y }}'),
        ('AtomicCompareExchange', f'{{ a.store(a.load(O::{l}), O::{s}); x }}'),
        ('Primitive', 'A::new(x).into_inner()'), ('Primitive', '{ let mut b = A::from(x); *b.get_mut() = x; unsafe { *b.as_ptr() } }'),
        ('AtomicLoad', f'unsafe {{ T::atomic_load(a.as_ptr(), O::{l}) }}'), ('AtomicStore', f'unsafe {{ T::atomic_store(a.as_ptr(), x, O::{s}); x }}'),
        ('AtomicSwap', f'unsafe {{ T::atomic_swap(a.as_ptr(), x, O::{a}) }}'),
        ('AtomicCompareExchange', f'unsafe {{ T::atomic_compare_exchange(a.as_ptr(), x, x, O::{a}, O::{f}).0 }}'),
        ('AtomicCompareExchange', f'unsafe {{ T::atomic_compare_exchange_weak(a.as_ptr(), x, x, O::{a}, O::{f}).0 }}')])
    ts = list(INTS) if b == 'Primitive' else atomics(v)
    t = r.choice(ts)
    return f'fn g{k}<T: raw::{b}>(a: &A<T>, x: M<T>) -> M<T> {{ {e} }} fn h{k}(a: &A<{t}>) {{ g{k}(a, M::uninit()); }}\n'
def i_constfn(r, v, k):
    t = r.choice(list(INTS))
    x = lit(val(r, v, t), t)
    return r.choice([
        f'const fn n{k}<T: raw::Primitive>(x: M<T>) -> A<T> {{ A::new(x) }} static S{k}: A<{t}> = n{k}(M::new({x}));\n',
        f'const fn n{k}<T: raw::Primitive>(a: A<T>) -> M<T> {{ a.into_inner() }} const _: () = assert!(unsafe {{ n{k}(A::new(M::new({x}))).assume_init() }} == {x});\n',
        f'const fn n{k}<T: raw::Primitive>(a: &mut A<T>, x: M<T>) {{ *a.get_mut() = x; }} const _: () = {{ let mut a = A::<{t}>::new(M::uninit()); n{k}(&mut a, M::new({x})); assert!(unsafe {{ a.into_inner().assume_init() }} == {x}); }};\n',
        f'const fn n{k}<T: raw::Primitive>(a: &A<T>) -> *mut M<T> {{ a.as_ptr() }}\n',
        f'const unsafe fn n{k}<\'a, T: raw::Primitive>(a: *mut M<T>) -> &\'a A<T> {{ A::from_ptr(a) }}\n'])
def i_share(r, v, k):
    t = r.choice(atomics(v))
    l, s = r.choice(LOAD), r.choice(STORE)
    x = lit(val(r, v, t), t)
    return r.choice([
        f'fn s{k}() {{ static S: A<{t}> = A::new(M::new({x})); std::thread::spawn(|| S.store(M::new({x}), O::{s})).join().unwrap(); S.load(O::{l}); }}\n',
        f'fn s{k}() {{ let a = A::<{t}>::new(M::uninit()); std::thread::scope(|q| {{ q.spawn(|| a.store(M::uninit(), O::{s})); q.spawn(|| {{ a.load(O::{l}); }}); }}); }}\n',
        f'fn s{k}() {{ let a = std::sync::Arc::new(A::<{t}>::from({x})); let b = a.clone(); std::thread::spawn(move || {{ b.load(O::{l}); }}); a.store(M::new({x}), O::{s}); }}\n',
        f'fn s{k}(a: A<{t}>) {{ std::thread::spawn(move || a.into_inner()); }}\n',
        f'fn s{k}(a: &A<{t}>) {{ let _ = std::panic::catch_unwind(|| a.load(O::{l})); }}\n',
        f'fn s{k}(a: A<{t}>) {{ let _ = std::panic::catch_unwind(move || a.load(O::{l})); }}\n',
        f'fn s{k}<T: raw::Primitive + Send + Sync + \'static>() {{ fn q<X: Send + Sync + Unpin + std::panic::UnwindSafe + std::panic::RefUnwindSafe + core::fmt::Debug + \'static>() {{}} q::<A<{t}>>(); }}\n'])
def i_conv(r, v, k):
    t = r.choice(list(INTS))
    x = lit(val(r, v, t), t)
    return r.choice([
        f'fn c{k}() -> A<{t}> {{ {x}.into() }}\n', f'fn c{k}() -> A<{t}> {{ M::new({x}).into() }}\n', f'fn c{k}(m: M<{t}>) -> M<{t}> {{ A::from(m).into_inner() }}\n',
        f'fn c{k}(a: &mut A<{t}>) -> (&mut M<{t}>,) {{ (a.get_mut(),) }}\n', f'fn c{k}(a: &A<{t}>) -> String {{ format!("{{:?}} {{:#?}}", a, a) }}\n',
        f'fn c{k}<\'a>(m: &\'a mut M<{t}>) -> &\'a A<{t}> {{ assert!(core::mem::align_of::<{t}>() <= 16); unsafe {{ A::from_ptr(m) }} }}\n',
        f'#[repr(C, packed)] struct P{k}(u8); fn c{k}(v: Vec<A<{t}>>) -> Vec<M<{t}>> {{ v.into_iter().map(A::into_inner).collect() }}\n'])
def i_fu(r, v, k):
    t = r.choice(atomics(v))
    return r.choice([
        f'fn u{k}(a: &A<{t}>) {{ let mut n = 0; let _ = a.fetch_update(O::SeqCst, O::Relaxed, |x| {{ n += 1; if n > 3 {{ None }} else {{ Some(x) }} }}); n += 1; }}\n',
        f'fn u{k}(a: &A<{t}>, mut f: impl FnMut(M<{t}>) -> Option<M<{t}>>) -> Result<M<{t}>, M<{t}>> {{ a.fetch_update(O::AcqRel, O::Acquire, &mut f) }}\n',
        f'fn u{k}(a: &A<{t}>, v: Vec<u8>) {{ let _ = a.fetch_update(O::AcqRel, O::Acquire, move |x| {{ drop(v.len()); None }}); }}\n',
        f'fn u{k}(a: &A<{t}>, f: &mut dyn FnMut(M<{t}>) -> Option<M<{t}>>) {{ let _ = a.fetch_update(O::AcqRel, O::Acquire, f); }}\n'])
ITEMS = [i_const, i_const, i_static, i_layout, i_generic, i_generic, i_constfn, i_share, i_conv, i_fu]

# --- one step outside: (twin that compiles, same with the step)
NOTPRIM = ['bool', 'char', 'f32', 'f64', '()', '(u8, u8)', '[u8; 2]', '*const u8', '*mut u32', "&'static u8", 'Box<u8>', 'core::num::NonZeroU8', 'core::cell::Cell<u32>', 'M<u8>', 'fn()', 'core::num::Wrapping<u64>', 'Option<u8>', 'String', 'A<u8>', 'core::sync::atomic::AtomicU8', 'std::rc::Rc<u8>']
def r_type(r, v):
    t, n = r.choice(list(INTS)), r.choice(NOTPRIM)
    w = r.choice(['fn f(a: &A<@>) {}', 'struct S { a: A<@> }', 'fn f() -> Option<A<@>> { None }', 'fn f(x: M<@>) { let _ = A::new(x); }', 'fn f(x: @) { let _ = A::<@>::from(x); }', 'type B = A<@>; fn f(b: &B) {}', 'fn g<T: raw::Primitive>() {} fn f() { g::<@>() }', 'fn f(p: *mut M<@>) { let _ = unsafe { A::from_ptr(p) }; }'])
    return w.replace('@', t), w.replace('@', n)
def r_bound(r, v):
    """generic code may not do what its bound does not promise"""
    b, g, e = r.choice([('AtomicLoad', 'AtomicStore', 'a.store(x, O::Relaxed)'), ('AtomicStore', 'AtomicLoad', 'drop(a.load(O::Relaxed))'), ('AtomicLoad', 'AtomicSwap', 'drop(a.swap(x, O::Relaxed))'), ('AtomicStore', 'AtomicSwap', 'drop(a.swap(x, O::Relaxed))'),
        ('AtomicLoad', 'AtomicCompareExchange', 'drop(a.compare_exchange(x, x, O::Relaxed, O::Relaxed))'), ('AtomicStore', 'AtomicCompareExchange', 'drop(a.compare_exchange_weak(x, x, O::Relaxed, O::Relaxed))'), ('AtomicLoad', 'AtomicCompareExchange', 'drop(a.fetch_update(O::Relaxed, O::Relaxed, |x| Some(x)))'),
        ('Primitive', 'AtomicLoad', 'drop(a.load(O::Relaxed))'), ('Primitive', 'AtomicStore', 'a.store(x, O::Relaxed)')])
    w = 'fn f<T: raw::@>(a: &A<T>, x: M<T>) { %s }' % e
    return w.replace('@', g), w.replace('@', b)
def r_impl(r, v):
    k = r.choice(['Primitive', 'AtomicLoad', 'AtomicStore', 'AtomicSwap', 'AtomicCompareExchange'])
    s = r.choice(['struct S;', '#[derive(Clone, Copy)] struct S(u8);', '#[repr(transparent)] #[derive(Clone, Copy)] struct S(u32);', 'enum S { X, Y }'])
    body = {'Primitive': '', 'AtomicLoad': 'unsafe fn atomic_load(_: *const M<S>, _: O) -> M<S> { loop {} }', 'AtomicStore': 'unsafe fn atomic_store(_: *mut M<S>, _: M<S>, _: O) {}', 'AtomicSwap': 'unsafe fn atomic_swap(_: *mut M<S>, _: M<S>, _: O) -> M<S> { loop {} }', 'AtomicCompareExchange': 'unsafe fn atomic_compare_exchange(_: *mut M<S>, _: M<S>, _: M<S>, _: O, _: O) -> (M<S>, bool) { loop {} }'}
    pre = f'trait Mine {{}} {s} impl Mine for S {{}} fn f<T: raw::{k}>() {{}}'
    allb = ''.join(f'impl raw::{kk} for S {{ {body[kk]} }} ' for kk in (['Primitive'] if k == 'Primitive' else ['Primitive', 'AtomicLoad', 'AtomicStore', k] if k not in ('AtomicLoad', 'AtomicStore') else ['Primitive', k]))
    if r.random() < .4:
        allb = f'unsafe impl atomic_maybe_uninit::private::PrimitivePriv for S {{ type Align = {r.choice(["u8", "u32", "u64", "()"])}; }} ' + allb
    return pre, pre + ' ' + allb
def r_unsafe(r, v):
    t = r.choice(atomics(v))
    b = r.choice([f'<{t} as raw::AtomicLoad>::atomic_load(p, O::Relaxed)', f'<{t} as raw::AtomicStore>::atomic_store(p, x, O::Relaxed)', f'<{t} as raw::AtomicSwap>::atomic_swap(p, x, O::Relaxed)', f'<{t} as raw::AtomicCompareExchange>::atomic_compare_exchange(p, x, x, O::Relaxed, O::Relaxed)', f'<{t} as raw::AtomicCompareExchange>::atomic_compare_exchange_weak(p, x, x, O::Relaxed, O::Relaxed)', f'A::<{t}>::from_ptr(p)'])
    w = 'fn f(p: *mut M<%s>, x: M<%s>) { let _ = @; }' % (t, t)
    if r.random() < .3:
        w = 'fn f(p: *mut M<%s>, x: M<%s>) { let g = || { let _ = @; }; g() }' % (t, t)
    return w.replace('@', f'unsafe {{ {b} }}'), w.replace('@', b)
def r_borrow(r, v):
    t = r.choice(atomics(v))
    any_ = r.choice(list(INTS))
    x = lit(val(r, v, t), t)
    return r.choice([
        (f'fn f(a: &mut A<{any_}>) {{ *a.get_mut() = M::uninit(); }}', f'fn f(a: &A<{any_}>) {{ *a.get_mut() = M::uninit(); }}'),
        (f'fn f(a: &mut A<{any_}>) {{ let p = a.get_mut(); *p = M::uninit(); let q = a.get_mut(); *q = M::uninit(); }}', f'fn f(a: &mut A<{any_}>) {{ let p = a.get_mut(); let q = a.get_mut(); *q = M::uninit(); *p = M::uninit(); }}'),
        (f'fn f(a: &mut A<{t}>) {{ let p = a.get_mut(); *p = M::new({x}); a.load(O::SeqCst); }}', f'fn f(a: &mut A<{t}>) {{ let p = a.get_mut(); a.load(O::SeqCst); *p = M::new({x}); }}'),
        (f"fn f<'a>(a: &'a mut A<{any_}>) -> &'a mut M<{any_}> {{ a.get_mut() }}", f"fn f<'a>(mut a: A<{any_}>) -> &'a mut M<{any_}> {{ a.get_mut() }}"),
        (f"fn f<'a>(a: &'a mut A<{any_}>) -> &'a mut M<{any_}> {{ a.get_mut() }}", f"fn f<'a, 'b>(a: &'b mut A<{any_}>) -> &'a mut M<{any_}> {{ a.get_mut() }}"),
        (f'fn f(a: A<{any_}>) -> M<{any_}> {{ a.into_inner() }}', f'fn f(a: A<{any_}>) -> [M<{any_}>; 2] {{ [a.into_inner(), a.into_inner()] }}'),
        (f'fn f(a: A<{any_}>) -> M<{any_}> {{ a.into_inner() }}', f'fn f(a: &A<{any_}>) -> M<{any_}> {{ a.into_inner() }}'),
        (f'fn f(a: A<{any_}>) -> A<{any_}> {{ a }}', f'fn f(a: A<{any_}>) -> (A<{any_}>, A<{any_}>) {{ (a, a) }}'),
        (f'fn f(a: &A<{any_}>) -> &A<{any_}> {{ a }}', f'fn f(a: &A<{any_}>) -> A<{any_}> {{ *a }}'),
        (f'fn c<X>() {{}} fn f() {{ c::<A<{any_}>>() }}', f'fn c<X: Copy>() {{}} fn f() {{ c::<A<{any_}>>() }}'),
        (f'fn f(a: &A<{any_}>) -> *mut M<{any_}> {{ a.as_ptr() }}', f'fn f(a: &A<{any_}>) -> &mut M<{any_}> {{ a.as_ptr() }}'),
        (f'fn f(a: &A<{any_}>) {{ let _ = unsafe {{ *a.as_ptr() }}; }}', f'fn f(a: &A<{any_}>) {{ let _ = *a.as_ptr(); }}'),
        (f'fn f(a: A<{t}>) {{ std::thread::spawn(move || {{ a.load(O::Relaxed); }}); }}', f'fn f(a: A<{t}>) {{ let b = &a; std::thread::spawn(move || {{ b.load(O::Relaxed); }}); }}')])
def r_operand(r, v):
    t = r.choice(atomics(v))
    u = r.choice([x for x in INTS if x != t])
    w = r.choice([f'fn f(a: &A<{t}>, x: @) {{ a.store(x, O::SeqCst) }}', f'fn f(a: &A<{t}>, x: @) {{ a.swap(x, O::SeqCst); }}', f'fn f(a: &A<{t}>, x: @) {{ let _ = a.compare_exchange(x, M::uninit(), O::SeqCst, O::SeqCst); }}', f'fn f(a: &A<{t}>, x: @) {{ let _ = a.compare_exchange_weak(M::uninit(), x, O::SeqCst, O::SeqCst); }}',
        f'fn f(a: &A<{t}>, x: @) {{ let _ = a.fetch_update(O::SeqCst, O::SeqCst, |_| Some(x)); }}', f'fn f(a: &A<{t}>) -> @ {{ a.load(O::SeqCst) }}', f'fn f(a: &mut A<{t}>) -> &mut @ {{ a.get_mut() }}', f'fn f(a: A<{t}>) -> @ {{ a.into_inner() }}', f'fn f(x: @) -> A<{t}> {{ A::new(x) }}',
        f"fn f<'a>(x: *mut @) -> &'a A<{t}> {{ unsafe {{ A::from_ptr(x) }} }}", f'fn f(a: &A<{t}>) -> *mut @ {{ a.as_ptr() }}', f'unsafe fn f(p: *mut M<{t}>, x: @) {{ unsafe {{ <{t} as raw::AtomicStore>::atomic_store(p, x, O::SeqCst) }} }}'])
    return w.replace('@', f'M<{t}>'), w.replace('@', r.choice([f'M<{u}>', t]))
def r_uninit(r, v):
    """a value read back is not a value until someone vouches for it"""
    t = r.choice(atomics(v))
    e = r.choice(['a.load(O::SeqCst)', 'a.swap(M::uninit(), O::SeqCst)', 'match a.compare_exchange(M::uninit(), M::uninit(), O::SeqCst, O::SeqCst) { Ok(x) => x, Err(x) => x }', 'match a.fetch_update(O::SeqCst, O::SeqCst, |_| None) { Ok(x) => x, Err(x) => x }', '*a.get_mut()'])
    w = f'fn f(a: &mut A<{t}>) -> {t} {{ @ }}'
    return w.replace('@', f'unsafe {{ ({e}).assume_init() }}'), w.replace('@', r.choice([e, f'({e}).assume_init()']))
OUT = [r_type, r_type, r_bound, r_impl, r_unsafe, r_borrow, r_borrow, r_operand, r_uninit]

def frame(r, s):
    """somewhere in a program"""
    m = r.randrange(3)
    return s if m == 0 else f'mod inner {{ use super::*; {s} }}' if m == 1 else f'fn outer() {{ {s} }}'
def gen(r, v):
    ed = r.choice(['2018', '2021', '2024'])
    if r.random() < .45:
        items = []
        for k in range(r.randint(6, 14)):
            items.append(r.choice(ITEMS)(r, v, k))
        return dict(edition=ed, accept=items)
    f = r.choice(OUT)
    a, b = f(r, v)
    q = r.random()
    st = r.getstate()
    a = frame(r, a)
    r.setstate(st)
    return dict(edition=ed, accept=[a], reject=frame(r, b), what=f.__name__[2:])
def decide(v, c):
    """None or what is wrong; a twin that does not compile says nothing about the other"""
    e = compile_(v, c['edition'], ''.join(c['accept']))
    if e:
        return f'a documented use does not compile: {e} | {"".join(c["accept"])[:1500]}'
    if 'reject' in c and compile_(v, c['edition'], c['reject']) is None:
        return f'the compiler accepts ({c["what"]}): {c["reject"]}'
def shrink(v, c):
    if 'reject' in c:
        return c
    for it in c['accept']:
        q = dict(c, accept=[it])
        if decide(v, q):
            return q
    return c
def run_types(prop, tier):
    os.makedirs(WORK, exist_ok=True)
    notes, good = [], []
    def b(v):
        try:
            crate(v)
            return v
        except ToolError as e:
            notes.append(f'{v} not covered: {e}')
    good = [v for v in pmap(b, USE) if v]
    if not good:
        raise ToolError('; '.join(notes))
    per, chunks = (30, 2) if tier == 'quick' else (500, 8)
    stop = [False]
    def go(j):
        v, ch = j
        r = random.Random(f'{SEED}-types-{v}-{ch}')
        cls, fails, n, nt, sample = {}, [], 0, 0, None
        for _ in range(per):
            if stop[0]: break
            c = gen(r, v)
            m = decide(v, c)
            n += 1
            nt += 'reject' in c or len(c['accept']) > 4
            k = c.get('what', 'documented')
            cls[k] = cls.get(k, 0) + 1
            sample = c
            if m:
                stop[0] = True
                c = shrink(v, c)
                m = decide(v, c)
                if not m: raise ToolError('a failure did not repeat')
                fails.append(dict(kind='eng_types', variant=v, part='types', case=c, message=f'{v}: {m}', key=None))
        return dict(part='types', variant=v, rc=0, res=dict(evaluations=n, distinct_nontrivial=nt, classes=cls, samples=[sample]), failures=fails,
                    rule='types: one case = a program of documented uses, or a pair of programs one of which is one step outside; non-trivial: a pair, or more than four uses')
    return pmap(go, [(v, ch) for v in good for ch in range(chunks)]), notes
def replay(rep):
    os.makedirs(WORK, exist_ok=True)
    return decide(rep['variant'], rep['case'])
def register(engine):
    engine('C16')(run_types)
