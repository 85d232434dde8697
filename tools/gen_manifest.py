import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import checks
T = {
 'C01': 'TLA+ object-store model of formal sums (BLS.tla, BLSCases.tla, BLSGen.tla); TLC behaviours replayed on the library',
 'C02': 'TLA+ batch model (BLSCases.tla, BLS.tla); TLC behaviours replayed on the library',
 'C03': 'TLA+ algebraic adversary (BLSForge.tla); every forging program executed against the library',
 'C04': 'TLA+ value-semantics model with frame condition (BLS.tla); TLC behaviours replayed on the library',
 'C05': 'TLA+ encoding model inside the object store (BLS.tla) and codec layout (Codec.tla); behaviours replayed',
 'C06': 'TLA+ Merkle tree model (Merkle.tla, MerkleSizes.tla); TLC behaviours replayed on the library',
 'C07': 'TLA+ Merkle tree model with tampering (Merkle.tla, MerkleSizes.tla); behaviours replayed',
 'C08': 'TLA+ Merkle tree model with failing payloads and frame condition; behaviours replayed',
}
D = 'TLA+ specification checked with TLC; its behaviours replayed on the library'
T.update(getattr(checks, 'TECH', {}))
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 setup.py',
     'checks': [], 'not_applicable': [],
     'notes': 'No hooks: every check drives the exported API of /repo through the Go module in harness/. See DESIGN.md.'}
NOTE = ('The specification is checked by TLC within the bounds recorded in the evidence; conformance of the library is decided on the behaviours TLC emits '
        '(exhaustively enumerated cases and seeded random behaviours) and, where stated in DESIGN.md, on recorded histories validated by TLC. '
        'Trusted: the group arithmetic of go-ristretto / bn256, x/crypto, the harness and TLC.')
for p in props:
    i = p['id']
    if hasattr(checks, i):
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': T.get(i, D), 'level': 'model_checking', 'level_note': NOTE})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'its check is not built yet'})
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed')
