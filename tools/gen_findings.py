import json
F=[dict(property="C03",tag="rescale",what="hash-to-curve is SHA3-256(m) times the base point, a known multiple: the honest signature on m2 times SHA3-256(m1)/SHA3-256(m2) verifies as the honest key's signature on m1 (histories of kind \"rescale\" in BLSForge.tla)"),
dict(property="C10",tag="latekey",what="mlsag: the challenges hash neither the ring nor the key images, so a key without key image of the closing member can be chosen after its challenge, K2 = (P - r2*G)/c: accepted although nobody knows the secret of K2 (programs of RingForge.tla with a \"late\" key, ring of two or more)"),
dict(property="C10",tag="ring1key",what="mlsag: in a ring of one every key and image can be chosen after the challenge, K = (P - r*G)/c, I = (Q - r*H(K))/c: accepted although nobody knows a secret (programs of RingForge.tla with a \"late\" key, ring of one)"),
dict(property="C11",tag="ring1image",what="mlsag and blsag: in a ring of one the signer can choose the key image after the challenge, I = (Q - r*H(K))/c: accepted with an image that is not that of its key (programs of RingForge.tla with a \"late\" image, ring of one)"),
dict(property="C16",tag="ring1key",what="blsag: in a ring of one the key and image can be chosen after the challenge, K = (P - s*G)/c, I = (Q - s*H(K))/c: accepted although nobody knows the secret (programs of RingForge.tla with a \"late\" key, ring of one)"),
]
fx='''C05 5bc8492 the text form of a key was accepted with line breaks in it
C06 b63322b RebuildTree took the duplicate of the last leaf for content
C07 b63322b VerifyContent ignored the recorded merkle root
C08 62a750a hashing two nodes wrote into the array of a payload's hash
C21 77f4f32 an inner-product proof was accepted with more factors than generators
C22 d8d680e two vectors of a commitment to more than 257 vectors shared their generators
C22 1b0c8a5 a commitment to no vectors was not blinded
C21 6528f2f innerproduct Generate and Verify panicked on mismatched sizes and accepted uninitialised points
C23 6638b04 SubScalar by zero aliased its operand, the powers of zero lacked 0^0 = 1
C22 ab40dc5 CommitToVectors wrote into the array of the caller's generator data
C20 d61f953 Decode of range proofs and commitments allocated what the peer asked for, took non-canonical encodings, and encoding a proof without inner product proof panicked
C20 8054c5d rangeproof Equals overran the commitments and ignored the inner product proof
C17 7e85b80 Prove padded the values in the caller's array
C17 e3e4a85 proving 2^64-1 in debug mode failed
C18 38de530 Verify panicked on malformed proofs and accepted uninitialised points
C18 565508f innerproduct Decode ignored undecodable points, which made forged range proofs verify
C19 48bab55 Prove and Verify depended on the number of values of the last proof, and raced on it
C16 3c645ed blsag Verify panicked on malformed rings and accepted uninitialised points
C15 91c43bc blsag Sign left mixins out of the ring
C12 91c43bc blsag Sign gave the position of the signer away
C14 9a55dc9 mlsag Decode allocated what the peer asked for and took non-canonical encodings, Equals ignored or overran responses
C10 eebfa69 mlsag Verify panicked on malformed signatures and accepted uninitialised points
C12 728df09 the position of the signer was predictable from the time of signing
C13 238d969 proving again and SubCommToZero corrupted issued signatures and the caller's keys
C09 c0040c3 a ring of one could neither sign nor verify
C05 11a46db public keys outside of the group of order q (and the identity) were accepted
C04 8264de9 a batch of one aliased its signature
C01 8264de9 aggregating nothing returned nil without an error
C25 cc44324 encoding a key or a signature raced with its concurrent use
C05 4dee03a non-canonical encodings were accepted
C04 4dee03a the receiver of a failed decode was changed
C01 6600a3f aggregating equal keys or signatures gave a wrong point
C02 aaa0657 empty batches were accepted and batches with more keys than messages panicked or were accepted'''
fixed=[]
for l in fx.splitlines():
    p,c,w=l.split(' ',2); fixed.append('fixed: property=%s %s %s'%(p,c,w))
json.dump(dict(findings=F,fixed=fixed),open('/verif/known_findings.json','w'),indent=1)
