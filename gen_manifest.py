#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json, os
PBT = 'proptest generation and shrinking'
C = {
 'C01': (f'property-based testing: random operation histories against a model cell ({PBT}), natively and over interpreted machine code of 76 other configurations of 14 architectures', 'Random histories of every operation and type on 26 builds that execute natively; bytes and results compared after every call. Samples, does not enumerate.'),
 'C02': (f'property-based testing: near-miss compare-exchange triples against byte equality ({PBT}), natively and over interpreted machine code of 76 other configurations of 14 architectures', 'Values are derived from the cell content (equal, one bit, one byte, one half off), so both branches are dense.'),
 'C03': (f'property-based testing with guard pages, read-only pages and single-step scheduling ({PBT}), and over interpreted machine code of 76 other configurations of 14 architectures', 'Transient out-of-bounds writes are seen because the surrounding cache line is compared after every machine instruction.'),
 'C04': ('property-based testing: generated histories with definedness masks under Memcheck, and generated programs with partly initialised values through the optimiser; metamorphic relation over interpreted machine code of 76 other configurations of 14 architectures (other garbage, same behaviour); Miri', 'Definedness judged by Memcheck shadow bits on the machine code (x86_64 and i686 builds; x87 64-bit paths excluded there) after every call, against a byte-level model.'),
 'C05': ('property-based testing under an instruction-level scheduler, exhaustive single-preemption sweep, real-core stress; generated schedules over interpreted machine code of 76 other configurations of 14 architectures', 'Trusts the single-step trap to expose every instruction boundary; real-core part covers what one instruction does.'),
 'C06': ('property-based testing under an instruction-level scheduler with a linearizability checker, real-core contention; generated schedules over interpreted machine code of 76 other configurations of 14 architectures', 'As C05; linearizability decided exactly for each history.'),
 'C07': ('property-based testing: generated message-passing programs on real cores, through the optimiser, and over interpreted machine code of 76 other configurations of 14 architectures under axiomatic memory models', 'Real cores: absence is statistical. Interpreted programs: every execution the architecture model allows, for small generated programs; models are multi-copy atomic.'),
 'C08': ('property-based testing: generated SeqCst litmus programs against the set of interleavings, on real cores and over interpreted machine code of 76 other configurations of 14 architectures under axiomatic memory models', 'Observed outcomes are compared with an exact enumeration; absence is statistical (about 10^5 runs per program).'),
 'C09': (f'exhaustive ordering enumeration plus random histories with invalid orderings ({PBT})', 'All orderings and pairs x types x builds enumerated.'),
 'C10': (f'property-based testing: scripted closures and single-stepped interference ({PBT}); also over interpreted machine code of 76 other configurations of 14 architectures', 'Reentrant and concurrent interference force the retry path.'),
 'C11': (f'property-based testing of the non-atomic API ({PBT}), natively and under Miri', 'Layout facts enumerated per type and build.'),
 'C12': ('property-based testing: generated build configurations (target x toolchain mode x features x cpu x cfg) probed by a compiled crate; every operation of generated configurations compiled to machine code; the pre-v6 Arm Linux operations interpreted on kernels with generated helper versions', 'Compiled and read back, not executed, for other targets; cfg macros, trait implementations and the documented table compared.'),
 'C13': (f'property-based testing: single-stepped calls with random machine state ({PBT}); generated programs through the optimiser; register-pressure families over interpreted machine code of 76 other configurations of 14 architectures', 'Calling-convention state compared at every return; values of generated programs compared with an interpreter of the same program.'),
 'C14': (f'differential property-based testing of methods against raw functions ({PBT}), natively and over interpreted machine code of 76 other configurations of 14 architectures (also under memory models)', 'Same history through both APIs on two cells; on other architectures a violation by one API alone is the difference.'),
 'C15': (f'property-based testing under an instruction-level scheduler: one thread frozen at a random instruction ({PBT}), natively and over interpreted machine code of 76 other configurations of 14 architectures', 'Bounded step counts instead of clocks.'),
 'C16': ('property-based testing: generated programs of documented uses (with compile-time assertions from a model) and generated pairs of a valid program and the same one step outside, decided by rustc', 'A pair counts only while its valid half compiles, so a rejection is about the step and not about the rest.'),
}
NA = {}
props = [json.loads(l)['id'] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'))]
PENDING = 'check under construction: not claimed yet'
m = dict(version=1, setup_cmd='python3 check.py setup',
  checks=[dict(property=p, quick_cmd=f'python3 check.py {p} quick', thorough_cmd=f'python3 check.py {p} thorough', technique=C[p][0], level='exploration', level_note=C[p][1]) for p in props if p in C],
  not_applicable=[dict(property=p, reason=NA.get(p, PENDING)) for p in props if p not in C],
  notes='All checks build the crate from /repo (path dependency) into /verif/target; no hooks in /repo. See DESIGN.md.')
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'MANIFEST.json'), 'w'), indent=1)
