#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness packages present."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'stateful property-based testing against a path-tree model (rapid)',
 'C02': 'stateful property-based testing over a catalogue of valid and invalid Go values',
 'C03': 'property-based differential testing of the four listing interfaces against a model tree',
 'C04': 'property-based testing: held value oracle, in-process versus RPC wire differential',
 'C05': 'property-based testing: typed decode of REST JSON equals the held value, exact decimal oracle',
 'C06': 'property-based testing: text parsed back, exact decimal oracle',
 'C07': 'property-based testing with adversarial strings: page skeleton and unescaped text, links followed',
 'C08': 'property-based testing against exact rational arithmetic on the parsed rendering',
 'C09': 'stateful property-based testing against a multiset model',
 'C10': 'property-based testing against closed formulas',
 'C11': 'stateful property-based testing against the validity interval of the median',
 'C12': 'generated concurrent programs under the race detector, snapshot-consistency oracle',
 'C13': 'stateful and concurrent property-based testing against a slice model, race detector',
 'C14': 'generated harness-owned schedules (gated callbacks) against a model of readers per group, race detector',
 'C15': 'generated fault injection: failing writers and panicking callbacks at every point',
 'C16': 'property-based round-trip, idempotence and all-or-nothing testing',
 'C17': 'property-based testing and fuzzing against big-integer arithmetic',
 'C18': 'enumeration of the type table and property-based testing against exact rounding',
 'C19': 'stateful property-based testing over generated flag sets',
 'C20': 'property-based testing of generated child processes, bracketed by getrusage and the runtime',
 'C21': 'stateful and concurrent property-based testing against a two-variable model, race detector',
 'C22': 'generated racing calls checked for linearizability by brute force, race detector',
 'C23': 'stateful property-based testing of identity classes and time brackets, changes during requests',
 'C25': 'grammar-based fuzzing of HTTP and RPC requests against a real server, with a before/after comparison of all that is reported',
 'C24': 'property-based testing of generated histories and request mixes: resource counts before and after, finalizers',
}
NOTE = ('Holds on every generated case of the run (counts and samples in the evidence file); no claim beyond them. '
        'Black box through exported API, HTTP handlers and net/rpc. Trusts the Go toolchain and standard library, and the oracle in gopath/src/verif/%s.')
checks, na = [], []
for l in open(os.path.join(H, 'properties.jsonl')):
    i = json.loads(l)['id']
    if os.path.isdir(os.path.join(H, 'gopath/src/verif', i.lower())):
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=TECH[i],
                           level='fault_enumeration' if i == 'C15' else 'exploration', level_note=NOTE % i.lower()))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
               notes='No hooks in /repo. Seeds come from VERIF_SEED; shards derive their own from it.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
