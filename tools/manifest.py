#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cones
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: Verus contracts woven into the functions extracted from /repo on every run; executable contracts search for failing inputs'
COMMON = ('All obligations of the functions in the cone are discharged by Verus/Z3 for all inputs and iterations; callees are used through their contracts. '
          'Trusted: extraction (tools/), contracts of std/base64/bincode/sha2/rand in specs/ext.rs and of files/serde_json in specs/files.rs, the verifier. ')
NOTE = {
 'C01': 'Composition theorem over setup, query, answer and decoding. Float filter geometry is checked exhaustively, not proved.',
 'C02': 'Composition theorem over setup, query, answer and decoding.',
 'C03': 'Contracts on generate_query, the decoders and Clone (the derived implementation is spelled out on every run); that the flag survives serialisation is a theorem over the codec derived from the struct.',
 'C04': 'Functional contract on both generate_query functions.',
 'C05': 'Functional contract on respond down to the inner product.',
 'C06': 'Functional contract on hint, matrix expansion, client vectors and getters.',
 'C07': 'Round-trip lemma over the bit packing functions; listing theorem.',
 'C08': 'Acceptance and rejection conditions in the setup contracts.',
 'C09': 'Rounding contract and lemma over all noise below half a step.',
 'C10': 'Contract on retrieve and on the construction.',
 'C11': 'Theorem: client positions and unmasking agree with the stored columns.',
 'C12': 'Contract on construction and contains, for fewer than 2^24 keys: the peeling order is an invariant, no false negatives the postcondition. Float geometry is checked exhaustively, not proved.',
 'C13': 'Contract on construction and contains, for fewer than 2^24 keys. Construction retries without a bound, so termination is proved only for the empty set and for each attempt.',
 'C14': 'Contract on construction and contains, for fewer than 2^24 keys; too small sets are proved to give an error.',
 'C15': 'Contract on the proxy, generic over key, hasher and filter; Hash and Hasher are assumed to be deterministic.',
 'C16': 'Panic freedom and range contracts on every lookup.',
 'C17': 'Ghost log of generator draws threaded through the samplers.',
 'C18': 'Panic freedom and termination measures of construction for fewer than 2^24 keys, with the bounded number of attempts. Float geometry is checked exhaustively, not proved.',
 'C20': 'Contracts on every function that writes or reads a file, over a model of files and of serde_json (assumed); the codecs are derived from the structs and their serde attributes on every run, and their round trip is an obligation.',
 'C19': 'Functional contract on the transposition; involution theorem.',
}
NA = {
 'C21': 'Computational indistinguishability is a hyperproperty over adversaries under a hardness assumption, not a functional contract; C03, C04 and C17 prove the functional conditions it rests on.',
 'C22': 'A statistical rate over random key sets is not a functional contract.',
}
TODO = 'No contract-based check yet.'
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
na = []
for i in ids:
    if i in cones.CONES and i in NOTE:
        checks.append({'property': i, 'quick_cmd': 'bin/check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + i, 'evidence_file': 'evidence/%s.json' % i, 'technique': TECH,
                       'level': 'proof', 'level_note': COMMON + NOTE[i], 'theorems': cones.CONES[i][1]})
        if not checks[-1]['theorems']:
            del checks[-1]['theorems']
    else:
        na.append({'property': i, 'reason': NA.get(i, TODO)})
m = {'version': 1, 'setup_cmd': 'sh bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. /repo carries fix commits only; see known-findings.txt and DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
