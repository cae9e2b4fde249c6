#!/usr/bin/env python3
"""Writes MANIFEST.json from the claimed checks below."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
TECH = {
    'C01': 'stateful property-based testing against a BTreeMap model',
    'C02': 'stateful property-based testing; oracle: independent IC hash of the model contents',
    'C03': 'stateful property-based testing; invariant: independent hash of each witness = root hash',
    'C04': 'stateful property-based testing; oracle: the IC specification lookup run on each witness',
    'C05': 'stateful property-based testing; oracle: exact label and leaf sets derived from the model',
    'C06': 'stateful property-based testing; oracle: exact in-order view of the range derived from the model',
    'C07': 'stateful property-based testing; oracle: exact in-order view of the prefix derived from the model',
    'C08': 'property-based testing of nested witnesses against lookups in the full model tree',
    'C09': 'stateful property-based testing with adversarial bulk orders; depth invariant',
    'C10': 'stateful property-based testing with instrumented keys/values and a checking allocator',
    'C11': 'property-based testing of generated hash trees against an independent implementation',
    'C12': 'property-based testing: differential encoding, round trip through an independent decoder',
    'C13': 'property-based testing of leaf encodings against independent byte definitions',
    'C14': 'property-based testing of labels and of the label order of maps',
    'C15': 'stateful property-based testing against a Vec model and an independent hash chain',
    'C16': 'property-based round-trip and differential testing with the standard shapes',
    'C17': 'stateful property-based testing against a map of vectors cut into pages',
    'C18': 'stateful property-based testing; oracle: IC specification lookup and model page hashes',
    'C19': 'property-based testing of generated groups against an independently built tree',
    'C20': 'property-based testing of generated selections against the expected pruned tree',
    'C21': 'metamorphic stateful testing: twin runs with and without interleaved reads',
    'C22': 'property-based testing: collision search over one-edit pairs and all visited states',
    'C23': 'stateful property-based testing of registrations against a path/type model',
    'C24': 'fault injection by generated panics in caller code, model comparison afterwards',
    'C25': 'structured fuzzing of encodings, differential against the standard shapes',
    'C27': 'stateful property-based testing with keys and values that count the work done for them',
}
SKIP = {
    'C26': 'A statement about which programs the type signatures let compile: no input, history or schedule of a running program decides it, so generated-input search cannot; the one violation seen (a reference smuggled out of modify\'s closure) was repaired with the commit that fixes C02.',
}
have = []
for g in ('maps', 'misc', 'codec', 'groups', 'cross'):
    b = subprocess.check_output([os.path.join(HERE, 'run.sh'), '--bin', g], text=True).strip()
    have += subprocess.check_output([b, 'list'], text=True).split()
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            'property': i,
            'quick_cmd': './run.sh %s --tier quick' % i,
            'thorough_cmd': './run.sh %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': TECH[i],
            'level': 'exploration',
            'level_note': 'Random and structured generation with shrinking; holds on everything explored, absence of a violation outside the explored inputs is not established. Bounds and distribution: see the evidence file and DESIGN.md.',
        })
    else:
        na.append({'property': i, 'reason': SKIP.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': './run.sh --build', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
