#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the harness's list of
properties (development aid: the result is committed)."""
import json, subprocess
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
built = {l.split()[0] for l in subprocess.run(['/verif/target/debug/vharness', 'list'], capture_output=True, text=True).stdout.splitlines()}
TECH = {
 'C01': 'property-based testing: generated schemas and values, round trip',
 'C02': 'property-based testing: generated Values, round trip, idempotence, independent composer',
 'C03': 'property-based testing: generated and enumerated strings, round trip',
 'C04': 'property-based testing: generated numbers, reference arithmetic',
 'C05': 'enumerated and generated scalars against a reference resolver',
 'C06': 'structured fuzzing of bytes, error validity predicate',
 'C07': 'generated nesting and alias graphs against the stated bounds, work counters',
 'C08': 'differential fuzzing: str vs slice vs chunked/faulty readers',
 'C09': 'generated document streams against a per-document reference',
 'C10': 'stateful generation of serialize/flush histories against a concatenation model',
 'C11': 'writer fault injection at generated points, prefix and completeness oracle',
 'C12': 'property-based testing: round trip through Value, differential with text',
 'C13': 'differential testing: owned vs borrowed deserializer',
 'C14': 'model-based stateful testing against a list of pairs',
 'C15': 'algebraic laws over generated related triples',
 'C16': 'model-based testing of lookups and assignments',
 'C17': 'property-based testing against a reference merge',
 'C18': 'property-based testing: round trips of every enum form, shape oracle, mutations',
 'C19': 'fault injection into one leaf, location and path oracle from an independent parse',
 'C20': 'property-based testing: borrowed vs owned, pointer containment',
 'C21': 'metamorphic testing: inject one structural defect, expect refusal',
 'C22': 'metamorphic testing: insert ignored content, expect the same data',
 'C23': 'metamorphic testing: aliases vs expanded document, reference composer',
 'C24': 'generated presentations and differential fuzzing against an independent composer',
 'C25': 'generated histories with allocation accounting, AddressSanitizer build',
 'C26': 'generated scalars x primitive targets against a reference',
 'C27': 'algebraic laws and reference model over generated numbers and texts',
 'C28': 'generated serializer call sequences, well-formedness and content oracle',
 'C30': 'property-based testing: recorded and played serde calls against a model, fault injection',
 'C31': 'generated orders, nestings, turns and threads of operations against each one alone',
 'C32': 'generated documents, Values and operations at two sizes, metamorphic bound on time and memory',
 'C29': 'property-based testing of accessors and conversions against a model',
}
NOTE = 'Random search with shrinking, a pure function of VERIF_SEED: absence of a violation is evidence over the cases counted in the evidence file, not proof. Trusted: the harness, rustc/std, unsafe-libyaml as the definition of the YAML grammar.'
checks = [{
    'property': p['id'],
    'quick_cmd': f"./run.sh {p['id']}",
    'thorough_cmd': f"VERIF_TIER=thorough ./run.sh {p['id']}",
    'technique': TECH[p['id']],
    'level': 'fault_enumeration' if p['id'] == 'C11' else 'exploration',
    'level_note': NOTE,
} for p in props if p['id'] in built]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': 'no check built yet'} for p in props if p['id'] not in built],
     'notes': 'No hooks in /repo. See DESIGN.md.'}
open('/verif/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
