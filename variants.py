"""Build variants of the crate that run on this machine, and the command that builds a shim for each."""
import os
I='i686-unknown-linux-gnu'; X='x86_64-unknown-linux-gnu'
LEG='--cfg atomic_maybe_uninit_no_asm_maybe_uninit'
def V(target,flags='',s64=True,s128=False,cas=True,base=False):
    return dict(target=target,flags=flags,s64=s64,s128=s128,cas=cas,base=base)
BASE={
 'x64':      V(X,base=True),
 'x64cx16':  V(X,'-Ctarget-feature=+cmpxchg16b',s128=True,base=True),
 'x64leg':   V(X,LEG+' -Ctarget-feature=+cmpxchg16b',s128=True),
 'x64pre20': V(X,'--cfg portable_atomic_pre_llvm_20 -Ctarget-feature=+cmpxchg16b',s128=True),
 'i686':     V(I,base=True),
 'i686sse':  V(I,'-Ctarget-feature=-sse2'),
 'i686x87':  V(I,'-Ctarget-feature=-sse,-sse2'),
 'i686cx8':  V(I,'-Ctarget-feature=-sse,-sse2,-x87,+soft-float'),
 'i686leg':  V(I,LEG),
 'i686legsse':V(I,LEG+' -Ctarget-feature=-sse2'),
 'i686legcx8':V(I,LEG+' -Ctarget-feature=-sse,-sse2,-x87,+soft-float'),
 'i686no8b': V(I,'--cfg atomic_maybe_uninit_no_cmpxchg8b',s64=False),
 'i686nocas':V(I,'--cfg atomic_maybe_uninit_no_cmpxchg8b --cfg atomic_maybe_uninit_no_cmpxchg',s64=False,cas=False),
}
VARIANTS={}
for k,v in BASE.items():
    for prof in ('dbg','rel'):
        VARIANTS[f'{k}-{prof}']=dict(v,profile='dev' if prof=='dbg' else 'release',pdir='debug' if prof=='dbg' else 'release')
