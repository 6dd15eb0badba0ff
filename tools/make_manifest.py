#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the checks which exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
KIND = {
    'P01': 'round trips and domain against an independent high-precision reference', 'P02': 'derivatives against an independent reference',
    'P03': 'histories of requests against an identity model', 'P04': 'stateful histories against a map of sets',
    'P05': 'stateful histories against a reference hierarchy', 'P06': 'stateful histories against a per-element reference',
    'P07': 'generated index expressions against numpy on an array of element numbers', 'P08': 'histories with an invariant over every evaluation',
    'P09': 'free-space model against an independent reference, differential updates', 'P10': 'known right and wrong gradients, soundness and completeness',
    'P11': 'histories against a prediction of every update', 'P12': 'stateful histories against a list of registrations',
    'P13': 'stateful histories, differential against fresh computation', 'P14': 'stateful histories against a model cache, counting computations',
    'P15': 'metamorphic: full state of original and copy over histories', 'P16': 'round trip through pickle and twin histories',
    'P17': 'invariants over generated objectives and optimizers', 'P18': 'fault injection in generated runs against a model of restarts',
    'P19': 'generated schedules of failures against a counter', 'P20': 'stateful histories with name invariants and reference lists',
    'P21': 'generated strings with an oracle for identifiers', 'P22': 'differential against the flat concatenated array',
    'P23': 'differential against a plain numpy array', 'P24': 'parse-back of generated printouts', 'P25': 'generated trees, reference traversal, injected exceptions',
    'P26': 'differential against a closed form over histories', 'P27': 'differential between normal and deferred construction', 'P28': 'invariants over generated functions and recorded evaluations',
    'P29': 'differential against numpy on plain arrays, full state of the sources', 'P30': 'metamorphic: twin runs with and without messages, messages parsed back against the recorded evaluations',
    'P31': 'fault injection, differential between a twin which fails and one which does not',
    'P35': 'differential: histories of a model alone and of the same model below another one',
    'P34': 'histories with weak references to everything, and full state of what is kept',
    'P33': 'round trip through saved files over histories, fault injection into the file',
    'P32': 'stateful model-based testing: histories against a reference map from elements to properties',
}
checks, missing = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'pbt', 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i,
                           technique='property-based testing (Hypothesis): ' + KIND[i], level='exploration',
                           level_note='Holds on every generated case of the run (counts, rule and samples in the evidence); trusts the reference model in pbt/ and numpy/scipy; bounds and exclusions in DESIGN.md.'))
    else:
        missing.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=missing,
         notes='No hooks: the checks import paramz from /repo and observe it from outside. known_findings.json lists the repaired defects. Each check: 8 worker processes of generated cases, shrinking, a replay file (./check Pxx --replay FILE), evidence.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
print(len(checks), 'checks,', len(missing), 'missing')
