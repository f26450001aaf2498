#!/usr/bin/env python3
"""Writes MANIFEST.json: every property whose harness exists is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'P01': 'property-based testing: constructive round trip (intended options -> spelling -> parse)',
 'P02': 'property-based testing: differential against a reference grammar model, coverage-guided',
 'P03': 'property-based testing: conservation invariant and two-phase metamorphic relation',
 'P04': 'property-based testing: differential against a lookup model',
 'P05': 'property-based testing: position model and metamorphic interleaving',
 'P06': 'property-based testing: all 8192 style masks enumerated with generated tokens, against a model',
 'P07': 'property-based testing: differential against a line-grammar model, stream chunking and width metamorphic',
 'P08': 'property-based testing with injected read faults: differential against the stream parser',
 'P09': 'property-based testing: differential against an environment model with recorded mapper calls',
 'P10': 'stateful model-based property testing of store histories',
 'P11': 'stateful model-based property testing of notify with recorded deliveries',
 'P12': 'property-based testing: differential against a conversion model',
 'P13': 'stateful model-based property testing of map chains',
 'P14': 'property-based testing: wide/narrow differential and codec round trip against an independent codec',
 'P15': 'property-based testing: quoting round trip and differential against a splitter model',
 'P16': 'property-based testing: differential against a formatter model plus layout invariants',
 'P17': 'property-based testing: exact message text against a model; repeated/copied/rethrown invariants',
 'P18': 'coverage-guided structured fuzzing with purity, repeatability and hierarchy oracles under sanitizers',
 'P19': 'property-based testing: quoting round trip and differential against an automaton model',
 'P20': 'property-based testing: differential against the grammar model with user parsers, recorded offers',
 'P21': 'property-based testing: end-to-end round trip argv/config/environment -> typed variables',
 'P22': 'property-based testing with fault injection: failing allocations and throwing callbacks at generated points, against the undisturbed run',
 'P23': 'property-based testing of concurrent histories: generated per-thread plans under the thread sanitizer, against the sequential results',
 'P24': 'stateful property-based testing: histories of copies and destructions, each object against one rebuilt from its recipe',
 'P25': 'stateful model-based property testing of user-defined value semantics with recorded calls',
 'P26': 'property-based testing: metamorphic relations (unrelated options and input added, descriptions reordered and regrouped, sources split)',
    'P27': 'property-based testing: differential between equivalent entry points, overloads, setter orders and access functions',
    'P29': 'property-based testing: differential between sources of the same settings over store histories, and round trips of maps',
    'P28': 'property-based testing: the help text is parsed back and every claim of it is tried against the parsers and the map',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/src/%s.cpp' % (V, i.lower())):
        checks.append({'property': i, 'quick_cmd': 'python3 run_check.py ' + i, 'thorough_cmd': 'python3 run_check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH[i], 'level': 'exploration',
                       'level_note': 'Generated-input search with an explicit oracle; no absence proof. Trusts the reference model in /verif/src (see DESIGN.md), clang 18 with ASan/UBSan, libstdc++ and the installed Boost headers.'})
    else:
        na.append({'property': i, 'reason': 'its check is not built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 run_check.py --build-only', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks observe public behaviour only. Every run is a function of the code and VERIF_SEED.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
