#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check in harness/props is claimed."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
registered = set()
for f in os.listdir(os.path.join(here, 'harness/props')):
    registered |= set(re.findall(r'ID:\s+"(C\d\d)"', open(os.path.join(here, 'harness/props', f)).read()))
TECH = {
    'C01': 'generated two-way message histories with generated chunking and goroutine delays (rapid, race detector) against byte-for-byte prefix/equality',
    'C02': 'generated histories of concurrent sessions with tagged payloads and goroutine delays (rapid, race detector)',
    'C03': 'generated start-up requests and configured names against an independent model of PostgreSQL start-up rules (rapid)',
    'C04': 'generated negotiation sequences, floods and malformed start-up packets (rapid, race detector)',
    'C05': 'generated hang-up placements and kinds with goroutine delays (rapid, race detector), leak and delivery oracle',
    'C06': 'generated stall patterns (rapid); progress oracle with quiescence-based hang detection',
    'C07': 'generated close placements and concurrent operations with goroutine delays (rapid, race detector), leak oracle',
    'C08': 'stateful generation of configuration updates against a model of the listening address (rapid)',
    'C09': 'stateful generation of database switches interleaved with start-ups, model of the allowed routes (rapid)',
    'C10': 'model-based stateful testing of subscriptions (rapid) plus generated concurrent histories checked for contiguity',
    'C11': 'generated concurrent histories with goroutine delays (rapid, race detector), termination and monotonicity oracle',
    'C12': 'generated edit histories of the configuration file against the built program (rapid)',
    'C13': 'generated command lines and configuration files against the built program and a model of its outcome (rapid)',
    'C14': 'generated messages: round trip and differential against an independent encoder (rapid)',
    'C15': 'structured fuzzing of message bodies against an independent strict decoder, allocation bound (rapid)',
    'C16': 'generated streams, chunkings, truncations and lengths against a reference framer (rapid)',
    'C17': 'stateful generation of buffer operations against a model (rapid)',
    'C18': 'generated connection URLs against an independent model (rapid)',
    'C19': 'generated catalogues and fault placements served by a simulated PostgreSQL server with a small SQL evaluator (rapid)',
    'C20': 'generated concurrent firers and observers with goroutine delays (rapid, race detector)',
    'C21': 'structured fuzzing of both sides of live sessions, witness-session and survival oracle (rapid)',
    'C22': 'generated stall and resume histories (rapid), bounded-acceptance and completeness oracle',
}
checks, na = [], []
for p in props:
    if p['id'] in registered:
        checks.append({
            'property': p['id'],
            'quick_cmd': './run.sh ' + p['id'],
            'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': 'property-based testing: ' + TECH[p['id']],
            'level': 'exploration',
            'level_note': 'generated-input search; no exhaustiveness claimed. Counts, non-triviality rule and samples are in the evidence file.',
        })
    else:
        na.append({'property': p['id'], 'reason': 'the check is not built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
