#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import props
ENUM = 'explicit-state model checking: exhaustive bounded enumeration of inputs executed on the real code against a reference model'
T = {
    'C01': ENUM, 'C02': ENUM + ' and libprotobuf', 'C03': ENUM + ' and libprotobuf',
    'C04': 'exhaustive enumeration of byte strings and truncation points, executed on the real code against a reference decoder model',
    'C05': 'exhaustive enumeration of byte strings executed on the real code under address and undefined behaviour sanitizers, followed by every use of the message',
    'C06': ENUM, 'C07': 'exhaustive enumeration of values and of all buffer capacities executed on the real code',
    'C08': 'exhaustive enumeration of fault points: every push and every read refused, once and from then on, on the real code',
    'C09': 'explicit-state model checking: breadth-first search over operation histories on the real objects in lockstep with a reference model',
    'C13': ENUM, 'C16': 'exhaustive enumeration of values and array sizes executed on the real code against an independent rendering',
    'C17': 'exhaustive enumeration of bounded schemas; each is generated, compiled and its messages compared with protobuf',
    'C18': ENUM, 'C19': 'exhaustive enumeration of all 2^32 values of the 32-bit codecs and of structured 64-bit families on the real code',
    'C20': 'exhaustive enumeration of build configurations, each exploring the same bounded input and history space; results compared',
    'C21': 'exhaustive enumeration of bounded dependency graphs, file subsets and orders, run through the real plugin and compared with an independent classification',
}
T['C22'] = 'exhaustive enumeration of values, decode inputs and operation pairs executed on the real code with every allocation function monitored'
T['C23'] = 'model checking of schedules on the real code: every pair of switch points at buffer accesses, and the second operation after every single instruction of the first'
T['C24'] = ENUM
T['C25'] = T['C09']
T['C26'] = ENUM + ' and libprotobuf, for every ordered pair of writer and reader'
for k in ('C10', 'C11', 'C12', 'C14', 'C15'):
    T[k] = T['C09']
NOTE = {
    'C19': 'Complete for the 32-bit types and float; for 64-bit types complete for the listed families. Trusts the reference encoder (cross-checked with libprotobuf).',
    'C20': 'Digest of all outcomes of the other explorations compared between 9 build variants (compiler, standard, optimization, text dump).',
    'C17': 'Every schema of the enumerated families; gcc 13 and clang 18, C++11 to C++20; Python protobuf is the oracle for the bytes.',
    'C21': 'Every schema of the enumerated families; classification by an independent implementation in schemas.py.',
}
checks = []
for i in range(1, 27):
    p = 'C%02d' % i
    h = props.HARNESS.get(p)
    note = NOTE.get(p) or ('Bounded but exhaustive. Bounds: ' + h['bounds'] + '. Assumes: ' + '; '.join(h['assumptions']))
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
                   'technique': T[p], 'level': props.LEVEL[p], 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo. Checks build everything from the working tree of /repo into /verif/build (ignored by git).'}, open('MANIFEST.json', 'w'), indent=1)
