#!/usr/bin/env python3
"""writes /verif/MANIFEST.json: a check for every props/cNN.py, the rest not applicable"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C01': 'seeded search over thread interleavings of pure operations with concurrent reconfiguration, each compared with the same operation alone and with a reference model; a sample, not all schedules',
 'C02': 'seeded search over interleavings and histories of definitions, unpicklings, reloads and look-ups, judged against a write-once register model; a sample, not all schedules',
 'C03': 'seeded search over failing definitions (every kind and label position, failing evaluation, failing allocations) under concurrent definitions and look-ups',
 'C04': 'seeded search over interleavings of default-unit changes (valid, invalid, interrupted) with simplification; regular-register oracle per dimension and physical-value oracle',
 'C05': 'seeded search over interleavings of rendering with setting switches and definitions, judged by an independent reference formatter',
 'C06': 'seeded injection of interrupts, memory errors and failing array allocations at random instants inside operations, with other threads running',
 'C07': 'seeded injection of failures (casting, trapped floating point, failing elements, allocations, read-only, incompatible units) into in-place operations; element-wise old-or-new oracle',
 'C08': 'seeded search over crashes, torn and lost writes on a simulated disk, restarts in processes with other hash seeds, definition orders and settings',
 'C09': 'seeded search over histories of in-place operations on aliasing quantities, views and copies by several threads, against a reference model of shared storage',
 'C10': 'seeded search over mutation attempts on units by several threads with interrupts, compared with what the units denoted before',
 'C11': 'seeded search over histories of uncertain quantities with failing assignments, interrupts and concurrent readers',
 'C12': 'seeded search with simulated locks: deadlock and step-bound detection under interleavings, interrupts and threads holding the settings lock',
 'C13': 'seeded search over interleavings of preferred-unit conversion with reconfiguration; regular-register oracle',
 'C14': 'seeded injection of interrupts, memory errors and I/O errors at random instants of the import, repeated, with several importing threads',
}
NA = ('a pure function of its inputs: it depends on no schedule, clock, fault, crash or history, so simulation has '
      'nothing to decide; ')
WHY = {
 'C20': NA + 'the simulated histories of C01 check conversion values on the units they happen to use',
 'C21': NA + 'the per-function unit rules are a table lookup on the operands alone',
 'C22': NA + 'parsing reads the text and the label table only; the label table under concurrency is C02',
 'C23': NA + 'a comparison of one table with another',
 'C24': NA + 'arithmetic on the operands; that value and uncertainty stay in step over histories is C11',
 'C25': NA + 'the shape and dtype of a result follow from the operands alone',
 'C26': NA + 'algebra on values without state',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(VERIF, 'props', i.lower() + '.py')):
            checks.append({'property': i, 'quick_cmd': '/opt/venv/bin/python check.py ' + i,
                           'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % i,
                           'technique': 'deterministic simulation with fault injection', 'level': 'exploration',
                           'level_note': NOTE[i]})
        else:
            na.append({'property': i, 'reason': WHY.get(i, 'not built yet')})
    m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/setup.py', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
