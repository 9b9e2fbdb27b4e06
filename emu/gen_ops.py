#!/usr/bin/env python3
"""Writes src/ops.rs: the list of (type, operation, ordering) functions."""
import os
O = dict(r='Relaxed', a='Acquire', l='Release', x='AcqRel', s='SeqCst')
out = []
for t in ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'i128', 'u128', 'isize', 'usize']:
    k = 'r' if t[0] == 'u' else 'm'
    w = 'ptr' if t.endswith('size') else t[1:]
    def row(op, os):
        return ' '.join(f'{op}_{t}_{o} p{op}_{t}_{o} {O[o]},' for o in os)
    out.append(f'cfg_has_atomic_{w}! {{ {k}_load! {{ {t}; {row("load", "ras")} }} {k}_store! {{ {t}; {row("store", "rls")} }} }}')
    cas = ' '.join(f'cas_{t}_{s}{f} weak_{t}_{s}{f} pcas_{t}_{s}{f} pweak_{t}_{s}{f} {O[s]} {O[f]},' for s in 'ralxs' for f in 'ras')
    out.append(f'cfg_has_atomic_{w}! {{ cfg_has_atomic_cas! {{ {k}_swap! {{ {t}; {row("swap", "ralxs")} }} {k}_cas! {{ {t}; {cas} }} }} }}')
    if k == 'r':
        # n: the methods of the unsigned types too, next to their raw functions
        def twice(op, os):
            return ' '.join(f'n{op}_{t}_{o} n{op}_{t}_{o} {O[o]},' for o in os)
        out.append(f'#[cfg(press)] cfg_has_atomic_{w}! {{ m_load! {{ {t}; {twice("load", "ras")} }} m_store! {{ {t}; {twice("store", "rls")} }} }}')
        cas = ' '.join(f'ncas_{t}_{s}{f} nweak_{t}_{s}{f} n n {O[s]} {O[f]},' for s in 'ralxs' for f in 'ras')
        out.append(f'#[cfg(press)] cfg_has_atomic_{w}! {{ cfg_has_atomic_cas! {{ m_swap! {{ {t}; {twice("swap", "ralxs")} }} m_cas! {{ {t}; {cas} }} }} }}')
        # q: plain accesses to other memory around it; c: plain accesses to the cell around it; t: the address is the value; s: one value twice; k: all ones; z: zero; f: doubles held across it (x86)
        def ctx(op, os):
            return ' '.join(f'q{op}_{t}_{o} c{op}_{t}_{o} t{op}_{t}_{o} k{op}_{t}_{o} z{op}_{t}_{o} f{op}_{t}_{o} {O[o]},' for o in os)
        out.append(f'#[cfg(press)] cfg_has_atomic_{w}! {{ x_load! {{ {t}; {ctx("load", "ras")} }} x_store! {{ {t}; {ctx("store", "rls")} }} }}')
        cas = ' '.join(f'qcas_{t}_{s}{f} ccas_{t}_{s}{f} tcas_{t}_{s}{f} scas_{t}_{s}{f} kcas_{t}_{s}{f} zcas_{t}_{s}{f} fcas_{t}_{s}{f} {O[s]} {O[f]},' for s in 'ralxs' for f in 'ras')
        out.append(f'#[cfg(press)] cfg_has_atomic_{w}! {{ cfg_has_atomic_cas! {{ x_swap! {{ {t}; {ctx("swap", "ralxs")} }} x_cas! {{ {t}; {cas} }} }} }}')
    fu = ' '.join(f'fu_{t}_{s}{f} {O[s]} {O[f]},' for s, f in ('rr', 'xa', 'ss'))
    fc = ' '.join(f'fc_{t}_{s}{f} {O[s]} {O[f]},' for s, f in ('rr', 'ra', 'la', 'ar', 'ss'))
    out.append(f'cfg_has_atomic_{w}! {{ cfg_has_atomic_cas! {{ fu! {{ {t}; {fu} }} fc! {{ {t}; {fc} }} }} }}')
# a swap without compare-exchange (RISC-V Zaamo without A)
for t in ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'isize', 'usize']:
    k = 'r' if t[0] == 'u' else 'm'
    g = 'emu_swap = "sub"' if t[1:] in ('8', '16') else 'all(emu_swap, target_pointer_width = "64")' if t[1:] == '64' else 'emu_swap'
    out.append(f'#[cfg({g})] cfg_no_atomic_cas! {{ {k}_swap! {{ {t}; ' + ' '.join(f'swap_{t}_{o} pswap_{t}_{o} {O[o]},' for o in 'ralxs') + ' } }')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'src/ops.rs'), 'w').write('\n'.join(out) + '\n')
