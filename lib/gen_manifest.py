"""Writes MANIFEST.json from properties.jsonl and the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
from registry import CHECKS
TECH = {
    'C01': 'TLA+ specification of the encoding forms (Unicode.tla), model-checked; every recorded conversion and insertion of the real code validated against it with TLC',
    'C02': 'TLA+ specification of well-formedness; recorded conversions, iterations and insertions of ill-formed input validated against it with TLC, memory accesses under ASan',
    'C03': 'TLA+ cursor specification; TLC generates all short and random long iterator histories, replayed on the real iterators, traces validated with TLC',
    'C04': 'TLA+ specification of prefixes and suffixes over code points; recorded calls validated with TLC, memory accesses under ASan',
    'C05': 'TLA+ specification of every class as intervals; the measured intervals of the real functions over their domains compared with TLC',
    'C06': 'TLA+ specification of number texts on big naturals, uniqueness of canonical text model-checked; recorded formatting calls validated with TLC',
    'C07': 'TLA+ specification of which texts are numbers; TLC enumerates all short texts, replayed in every format; recorded outcomes validated with TLC',
    'C08': 'TLA+ specification of floating point texts with exact rational arithmetic on big naturals; recorded calls validated with TLC',
    'C09': 'TLA+ state machine of format objects; TLC-generated setter histories replayed on real formats, traces validated with TLC; bool texts validated with TLC',
    'C10': 'TLA+ byte-array specification of resources, buffered design model-checked against it; TLC-generated histories replayed on real resources with a recording backend, traces validated with TLC',
    'C11': 'TLA+ byte-array specification of resources, buffered design model-checked against it; TLC-generated write histories replayed, backing store and positions validated with TLC',
    'C12': 'TLA+ byte-array specification; TLC-generated mixed histories and copies replayed on files and containers, traces validated with TLC',
    'C13': 'TLA+ byte-array specification; positions, seeks and end tests in TLC-generated histories replayed on real resources, traces validated with TLC',
    'C14': 'TLA+ specification of file objects and descriptors; TLC-generated life-cycle histories replayed with interposed system calls, traces validated with TLC',
    'C15': 'TLA+ specification with faulty system calls; TLC-generated fault schedules replayed by interposing read and write, traces validated with TLC',
    'C16': 'TLA+ specification of text output streams over Unicode.tla; generated histories replayed on real streams, bytes validated with TLC',
    'C17': 'TLA+ specification of text input streams over Unicode.tla; every outcome on well- and ill-formed bytes validated with TLC',
    'C18': 'TLA+ specification of word, line and text extraction; generated reading histories replayed on real streams, traces validated with TLC',
    'C19': 'TLA+ specification of data streams as byte sequences; generated write, read and endianness histories replayed, traces validated with TLC',
    'C20': 'TLA+ specification of the standard streams and their descriptors; histories replayed in child processes on pipes with scripted arrivals, traces validated with TLC',
    'C21': 'TLA+ state machine of the test module; TLC-generated test modules run for real, printed report and messages validated with TLC',
    'C22': 'TLA+ state machine of windows, native handles and events; TLC-generated histories replayed on the real GTK back end against a recording stand-in for GTK, traces validated with TLC',
    'C23': 'TLA+ state machine of application objects; TLC-generated histories replayed on real objects, traces validated with TLC',
    'C24': 'TLA+ arithmetic on big naturals; recorded calls validated with TLC',
}
NOTE = ('Conformance of the real code on the executions explored (generated from the specification and seeded sampling), judged by TLC on the '
        'specification alone; the design-level invariants are exhaustive within the bounds recorded in the evidence file. Trusts TLC, the driver\'s '
        'recording of calls and results, and g++ with AddressSanitizer.')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[],
         notes='TLA+ specifications in spec/, drivers in drivers/, glue in lib/; no hooks in /repo are needed. See DESIGN.md.')
for p in props:
    i = p['id']
    if i in CHECKS:
        m['checks'].append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
                                technique=TECH[i], level='model_checking', level_note=NOTE))
    else:
        m['not_applicable'].append(dict(property=i, reason='No check built yet.'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed')
