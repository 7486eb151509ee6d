#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'round-trip monitor over generated types and values',
 'C02': 'output monitor: strict PHP parser and independent encoder model',
 'C03': 'differential monitor against a reference decoder',
 'C04': 'crash, panic and hang monitor over hostile inputs in limited worker processes',
 'C05': 'rejection monitor over every prefix and token damage of generated documents, with an independent acceptor',
 'C06': 'big-integer oracle over boundary-dense integers at every position',
 'C07': 'exact rational oracle over bit-pattern dense floats',
 'C08': 'differential monitor of dynamic decoding against a reference decoder',
 'C09': 'memory-sharing monitor: address ranges, frozen images, scrambling of inputs and results',
 'C10': 'memory-image monitor: value images, history of returned slices, scrambling of results',
 'C11': 'Go race detector under concurrent stress, results compared with sequential runs and reference models',
 'C12': 'metamorphic history monitor: outcomes compared across permuted hostile histories and processes',
 'C13': 'independent cycle oracle over generated object graphs',
 'C14': 'call-log monitor of MarshalPHP against an independent walk of the value',
 'C15': 'call-log monitor of UnmarshalPHP against spans of an independent parse',
 'C16': 'key-mapping monitor against an independent reading of struct tags',
 'C17': 'metamorphic monitor: the same value encoded at many positions',
 'C18': 'refusal monitor over unsupported types at generated positions',
 'C19': 'differential monitor of decoding into pre-filled destinations, with aliases of old storage watched',
 'C20': 'metamorphic monitor: documents with arrays and objects exchanged',
 'C21': 'allocation monitor (runtime.MemStats) against linear budgets and doubling inputs',
 'C22': 'round-trip and crash monitor over recursive type families in fresh processes',
 'C23': 'nesting-limit monitor over generated container chains',
 'C24': 'index oracle over generated lists',
 'C25': 'metamorphic monitor: documents with and without extra skipped entries',
 'C26': 'null monitor at every position against the reference models',
 'C27': 'text oracle for quoted scalars in both directions',
 'C28': 'CPU time oracle comparing the same workload at two sizes',
 'C29': 'live-heap monitor over thousands of calls with fresh data and over kept pieces of results',
 'C30': 'the other monitors run in 32-bit, oldest-Go, newest-Go and unoptimised builds',
}
note = ('Runs the code of /repo as it is under generated, seeded workloads in short-lived worker processes; an independent oracle judges every execution. '
        'Assurance is limited to the executions explored (see the evidence file). Trusted: the Go toolchain and runtime, the reference models in /verif/harness/ref and phpdoc.')
extra = {'C29': ' Live heap after collections; growth beyond 64 kB (over 40 to 5000 calls) counts, plus eight times the largest call while calls go on.',
         'C30': ' Platforms: linux/386 and linux/amd64, the only ones that can be executed here.',
         'C28': ' CPU time with the collector off; only growth more than four times faster than the size, and by more than 0.3 s, counts.',
         'C11': ' Data races are found by the Go race detector on the schedules that occurred; two thirds of the processes are built with it, the others run uninstrumented at full speed.',
         'C21': ' Budgets are generous constants per byte: slopes, not exact sizes, are judged.',
         'C04': ' Hangs are judged by CPU time of one case, memory by a limit on the address space.'}
m = {
 'version': 1,
 'setup_cmd': 'bash run.sh --setup',
 'checks': [{
   'property': p,
   'quick_cmd': f'bash run.sh {p} quick',
   'thorough_cmd': f'bash run.sh {p} thorough',
   'evidence_file': f'evidence/{p}.json',
   'technique': 'runtime monitoring: ' + T[p],
   'level': 'exploration',
   'level_note': note + extra.get(p, ''),
 } for p in sorted(T)],
 'not_applicable': [],
 'notes': 'No hooks in /repo are needed: the monitors observe the public API (arguments, results, errors, memory, allocations, custom methods) and the race detector instruments the whole build. See DESIGN.md.',
}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
