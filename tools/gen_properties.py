import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
B='bls/bls.go'
p('C01','BLS multisignatures verify exactly for the aggregated signers and message',
 "A multisignature verifies against an aggregated public key and a message if and only if it is the sum, in any order and grouping, of the signatures on that very message of exactly the keys (counted with multiplicity) that were aggregated into that public key, each made with its own key pair. The same holds for a single signature of one key, in the plain public-key form and in the unsafe (unweighted) form. Aggregated keys and signatures are the same value whatever the order, grouping or encoding (object, bytes, compressed bytes) in which they were aggregated. Key generation yields such a pair, determined by the randomness it is given and different for different randomness, or an error when its source of randomness fails.",
 ['inputs','histories'],'every multiset of keys, every message, every order/grouping of aggregation and every sequence of aggregation calls',
 'The tests sample one or two random keys and one aggregation order; they never aggregate equal points, mismatched multisets or long histories.',
 [B],[('h0/h1 weighting and pairing check','bls/bls.go: Sign, apkSigWrap, NewApk, Aggregate*, Verify, verify')],
 [('apk','sum of weighted public keys','Apk.gx'),('sigma','sum of weighted signatures','Signature.e')],['Verify','VerifyUnsafe','Marshal'])
p('C02','BLS batch verification accepts exactly the matching, distinct batches',
 "Batch verification (over aggregated keys, over plain keys and over a compressed signature) accepts if and only if the lists of keys and messages are non-empty and of the same length, the messages are pairwise distinct (unless the caller asks to allow repeated ones), and the signature is the sum of one signature per pair of key and message, for all pairs. Every other batch gets an error, never a panic, and no element of either list is ignored.",
 ['inputs'],'all lists of keys and messages (including empty, unequal length, repeated and permuted) and all signatures',
 'The tests check two or three well-formed batches; list lengths, repetitions and permutations are unbounded.',
 [B],[('distinctness and pairing product','bls/bls.go: verifyBatch, VerifyBatch, VerifyUnsafeBatch, VerifyCompressed, distinct')],(),['VerifyBatch','VerifyUnsafeBatch','VerifyCompressed'])
p('C03','A BLS multisignature cannot be forged by combining what is public',
 "Without an honest signer's secret key, no linear combination of public keys, of rogue keys derived from honest ones and of signatures made by the adversary or by the honest signer on other messages yields a multisignature that verifies for a set containing the honest key on a message it never signed. In particular the rogue-key attack (publishing a key that cancels an honest one) fails against aggregated keys.",
 ['inputs','histories'],'every adversary that only uses the group operations on the published keys and signatures',
 'The tests replay one rogue-key attack against the unsafe variant; an adversary may choose any combination.',
 [B],[('key weights H1(pk)','bls/bls.go: h1, pkt, apkSigWrap'),('hash to curve','bls/bls.go: h0')],(),['Verify','VerifyUnsafe'])
p('C04','BLS keys and signatures behave as independent values',
 "An operation on a public key, aggregated key or signature changes nothing but its receiver: arguments, copies, results of earlier calls and the caller's byte slices keep their value, and later changes of one of them never show through another. When an operation fails, its receiver keeps its value too.",
 ['histories','fault_sequences'],'every sequence of copy, aggregate, encode, decode and verify calls on any set of objects, with failing decodes anywhere',
 'Aliasing needs a particular sequence of calls; the tests compare a copy once, right after making it.',
 [B],[('fresh points for results','bls/bls.go: Copy, Aggregate, UnsafeAggregate, UnsafeBatch, Unmarshal, Decompress')],(),['Marshal of every object after every call'])
p('C05','BLS encodings are canonical, lossless and safe on hostile bytes',
 "Decoding what was encoded (binary, compressed, text) gives back an equal key or signature, and each key or signature has exactly one accepted encoding per format. Any other byte string (wrong length, trailing bytes, coordinates outside of the field, points off the curve, unknown flag bytes, public keys outside of the prime-order group or equal to the identity) is refused with an error and never causes a panic.",
 ['inputs'],'all byte strings given to the decoders and all keys and signatures given to the encoders',
 'The tests round-trip a few random values and feed hardly any malformed bytes.',
 [B],[('canonical decoding','bls/bls.go: Unmarshal*, Decompress, UnmarshalText, MarshalText, Compress')],(),['Unmarshal','Decompress','UnmarshalText'])
M='merkletree/merkletree.go'
p('C06','The Merkle root is a fixed function of the ordered payload hashes',
 "The root of a tree is determined by the ordered list of payload hashes alone: pairwise SHA3-256 of the concatenation left-right, level by level, the last node of an odd level being paired with itself. Rebuilding from the leaves or from a list gives the same tree as building it anew, with one leaf per payload in order plus a marked duplicate of the last leaf when their number is odd; an empty list is refused.",
 ['inputs','histories'],'every list of payloads of every length, every sequence of build and rebuild calls',
 'The tests pin the roots of three small tables of payloads.',
 [M],[('bottom-up construction','merkletree/merkletree.go: NewTree, create, createIntermediate, RebuildTree, RebuildTreeUsing')],[('Tree','root, leaves and merkle root','merkletree.Tree')],['MerkleRoot','Leaves','Root'])
p('C07','Merkle verification accepts genuine trees and detects every tampering',
 "Verifying a tree succeeds on an untampered tree and fails once any payload's hash, the shape or order of the leaves, or the recorded root no longer agree with each other. Verifying content succeeds exactly for data whose hash equals that of a leaf and whose path of hashes up to the recorded root is intact.",
 ['inputs','histories'],'every tree, every payload, every change to a payload, a stored hash or the recorded root, in any order',
 'The tests change one hash in one place of small trees.',
 [M],[('recomputation of hashes','merkletree/merkletree.go: VerifyTree, VerifyNode, VerifyContent, CalculateNodeHash')],(),['VerifyTree','VerifyContent'])
p('C08','Merkle operations leave payloads alone and survive failing ones',
 "No tree operation writes into a byte slice that a payload handed out, nor into the spare capacity behind it. When a payload fails to produce its hash, the operation that needed it returns that error, and a tree being rebuilt keeps its previous root, leaves and nodes.",
 ['inputs','fault_sequences','histories'],'every payload implementation (hash slices with spare capacity, shared slices, errors at any call) and every point of failure',
 'The test payloads always succeed and return fresh exact-size slices.',
 [M],[('error propagation and fresh buffers','merkletree/merkletree.go: create, createIntermediate, VerifyNode, CalculateNodeHash, VerifyContent')],(),['bytes behind the slices that payloads returned','Tree fields after an error'])
ML=['mlsag/mlsag.go','mlsag/proof.go','mlsag/dualkey.go','mlsag/pubkeys.go','mlsag/responses.go']
p('C09','Every honest dual-key ring signature verifies',
 "For every ring of one or more members with two keys each, every non-zero pair of signer secrets and every message, the dual-key prover yields a signature over exactly the decoys plus the signer's public keys and over that message, and a key image with which it verifies. Missing (zero) secrets and members with a different number of keys are refused with an error. The output key of a member is its first key, and a prover counts as many members as it was given decoys.",
 ['inputs'],'all ring sizes, keys, messages and positions of the signer, and all draws of the randomness',
 'The only test of the dual-key prover ignores the result of the verification; ring sizes 1 and 2 are never tried.',
 ML,[('ring closing','mlsag/mlsag.go: prove, generateChallenge, Verify'),('dual keys','mlsag/dualkey.go: Prove')],(),['DualKey.Prove','Signature.Verify'])
p('C10','A ring signature is valid for nothing but what was signed',
 "Apart from reading the whole ring from another starting point or several times over, a multi-key ring signature stops verifying as soon as the message, any key of any member, their order or number, any response, the challenge or any key image is changed, removed, added or taken from another signature. A verifier given any combination of these, however malformed, answers false (or an error) without panicking, and nobody who lacks the secret keys of a member can compute an accepted one.",
 ['inputs','histories'],'every alteration or recombination of signatures and every adversary without the secrets of a ring member',
 'The test alters the message of one signature.',
 ML,[('hash chain over all members','mlsag/mlsag.go: Verify, generateChallenge')],(),['Signature.Verify'])
p('C11','Key images link exactly the signatures of the same key',
 "The key image that comes with a ring signature (multi-key and basic) depends only on the signer's key: it is the same for every ring, message and position, different for different keys, and equal to the published key-image function of the key pair. A signature verifies with the signer's own key image only, so signing twice with a key cannot be hidden and nobody else's image can be used.",
 ['inputs','histories'],'all keys, rings, messages and sequences of signatures',
 'No test compares key images of two signatures.',
 ['mlsag/mlsag.go','ringsig/blsag/blsag.go'],[('key image x*Hp(xG)','mlsag/mlsag.go: CalculateKeyImage; ringsig/blsag/blsag.go: Sign')],(),['key images returned by Prove and Sign','Verify with other images'])
p('C12','A ring signature does not give its signer away',
 "Among the members of the ring, nothing in a multi-key or basic ring signature tells who signed it: the signer's position is uniformly distributed and unpredictable from the time or from non-cryptographic randomness, and responses at the signer's position are distributed like all others. Signing twice the same message with the same key and ring gives unrelated challenges and responses.",
 ['inputs','configurations'],'all rings, signers and signing times',
 'A leak shows in the distribution over many signatures or under a controlled source of time and randomness, not in one signature.',
 ['mlsag/proof.go','mlsag/mlsag.go','ringsig/blsag/blsag.go'],[('random position, nonces and responses','mlsag/proof.go: shuffleSet; mlsag/mlsag.go: generateNonces, generateResponses; ringsig/blsag/blsag.go: Sign')],(),['position of the signer, responses and challenge in the encoding'])
p('C13','Provers, signatures and their callers do not disturb each other',
 "A dual-key prover may be used again after proving (new decoys, secrets, message, subtracted commitments), each signature covering the decoys, secrets and message set at that time, with the requested point subtracted from the second key of every decoy present and from nothing else. Signatures already issued, the key sets and messages the caller passed in, and other provers are never altered by it.",
 ['histories'],'every sequence of calls on provers, key sets and signatures',
 'The tests use each prover once, or only look at the encoding of the second signature.',
 ML,[('copies of keys and messages','mlsag/proof.go: addPubKeys, addSignerPubKey; mlsag/dualkey.go: SubCommToZero, SetMsg, Prove')],[('pubKeysMatrix','the decoys of the prover','mlsag.Proof')],['encodings of issued signatures and of the caller\'s keys after every call'])
p('C14','Ring signature encodings are lossless, canonical and safe on hostile bytes',
 "Decoding an encoded multi-key ring signature (with or without its keys) gives back an equal one that verifies the same way, and two signatures compare equal if and only if all the parts under comparison are equal. What was decoded before keeps its value when the same variable is decoded into again. Bytes that are not the encoding of a signature (truncated, non-canonical scalars or points, undecodable points, absurd counts) are refused with an error, without a panic and without memory or time beyond the size of the input.",
 ['inputs'],'all signatures, all byte streams, all pairs of signatures compared',
 'The tests round-trip two signatures of one shape.',
 ['mlsag/mlsag.go','mlsag/pubkeys.go','mlsag/responses.go'],[('stream codec','mlsag/mlsag.go: Encode, Decode, Equals; mlsag/pubkeys.go; mlsag/responses.go')],(),['Encode','Decode','Equals'])
BL=['ringsig/blsag/blsag.go']
p('C15','Every honest basic ring signature verifies over exactly its ring',
 "Signing a message with a key and any list of mixins (also none) gives a signature whose ring consists of exactly those mixins and the signer's public key, which verifies for that message. Signing changes neither the message nor the mixins of the caller.",
 ['inputs'],'all messages, keys and lists of mixins of any length, and all draws of the randomness',
 'The tests use rings of six and compare keys in a way that holds for uninitialised points.',
 BL,[('ring closing','ringsig/blsag/blsag.go: Sign, computeCLR')],(),['Sign','Verify'])
p('C16','A basic ring signature is valid for nothing but what was signed',
 "Apart from reading the whole ring from another starting point or several times over, a basic ring signature stops verifying as soon as the message, a member of the ring, their order or number, a response, the challenge or the key image is changed, removed, added or taken from another signature. A verifier given any combination of these, however malformed or uninitialised, answers false without panicking, and nobody who lacks the secret key of a member can compute an accepted one.",
 ['inputs','histories'],'every alteration or recombination of signatures and every adversary without the secret of a ring member',
 'The test changes the message only.',
 BL,[('hash chain over all members','ringsig/blsag/blsag.go: Verify, computeCLR')],(),['Verify'])
RP=['rangeproof/rangeproof.go','rangeproof/poly.go','rangeproof/debug.go','rangeproof/bitCommitment.go']
p('C17','Every value in range can be proven',
 "For every list of 1 to 16 values in [0, 2^64) the prover yields a proof that verifies, with one commitment per value in the caller's order followed by commitments to zero up to the next power of two, each opening to its value under the returned blinding factor. This holds with and without debugging; empty and longer lists are refused with an error, and the caller's values are left alone.",
 ['inputs'],'all lists of values (all bit patterns, lengths 1 to 16) and all draws of the randomness',
 'The tests prove random values for a few lengths.',
 RP,[('bulletproof prover','rangeproof/rangeproof.go: Prove; rangeproof/poly.go; rangeproof/bitCommitment.go')],(),['Prove','Verify','Proof.V'])
p('C18','No accepted range proof for a value out of range, nor for altered data',
 "A range proof is accepted only if every commitment in it opens to a value in [0, 2^64): values out of range, provers that deviate from the protocol, and proofs whose commitments, points, scalars or inner-product part were altered, reordered, removed, added or taken from another proof are not accepted. Malformed proofs get false or an error without panicking.",
 ['inputs','histories'],'every alteration or recombination of proofs and every cheating prover strategy on every list of values',
 'The test proves one value out of range; acceptance of a forged proof needs an adversarial prover.',
 RP+['rangeproof/innerproduct/innerproduct.go'],[('combined verification equation','rangeproof/rangeproof.go: Verify, megacheckWithC; rangeproof/innerproduct/innerproduct.go: VerifScalars')],(),['Verify'])
p('C19','Proving and verifying ranges depend on their arguments only',
 "Whether a proof is made and whether it verifies depends on its arguments alone: not on earlier or concurrent proofs or verifications of other sizes, valid or not, failed or not. Any number of provers and verifiers may run at the same time.",
 ['histories','schedules'],'all sequences and all interleavings of proving and verifying lists of different lengths',
 'Tests prove then verify the same proof, sequentially.',
 RP,[('number of values taken from the proof','rangeproof/rangeproof.go: Prove, Verify, computeS, megacheckWithC; rangeproof/poly.go')],[('M','former global number of values','rangeproof.M')],['results of Prove and Verify in any order','race detector'])
p('C20','Range proof encodings are lossless, canonical and safe on hostile bytes',
 "Decoding an encoded range proof, inner-product proof or list of commitments gives back an equal one that verifies the same way, and two proofs compare equal if and only if all the parts under comparison are equal. What was decoded before keeps its value when the same variable is decoded into again. Bytes that are not such an encoding (truncated, odd-sized, non-canonical or undecodable elements, absurd counts) are refused with an error, without a panic and without memory or time beyond the size of the input.",
 ['inputs'],'all proofs, all byte streams, all pairs of proofs compared',
 'The tests round-trip well-formed proofs.',
 ['rangeproof/rangeproof.go','rangeproof/innerproduct/innerproduct.go','rangeproof/pedersen/pedersen.go'],[('stream codecs','Proof.Encode/Decode/Equals in rangeproof and innerproduct; pedersen.EncodeCommitments/DecodeCommitments')],(),['Encode','Decode','Equals'])
p('C21','The inner-product argument is complete and sound',
 "For every power-of-two size, every pair of vectors, every generators and factors, the generated inner-product proof verifies against the matching commitment and leaves the caller's vectors alone. It verifies against no other commitment, generators or factors, nor after any change of its parts; sizes that are not a power of two or do not match give an error or false, never a panic.",
 ['inputs'],'all sizes, vectors, generators and factors; all alterations of proofs and statements',
 'The tests verify random honest proofs only and never a false statement.',
 ['rangeproof/innerproduct/innerproduct.go'],[('recursive halving and its verification scalars','rangeproof/innerproduct/innerproduct.go: Generate, VerifScalars, Verify')],(),['Generate','Verify','VerifScalars'])
p('C22','Commitments open, hide and add up; generators are reproducible',
 "A commitment equals value times base plus the returned blinding factor times the blinding base, vector commitments use one fixed and distinct sequence of generators per vector determined by the seed and position alone, and commitments add up homomorphically. Each commitment uses a fresh blinding factor. Generators do not depend on how or how often they were computed, and committing changes none of the caller's data.",
 ['inputs','histories'],'all values, vectors, seeds and sequences of generator and commitment calls',
 'The tests recompute one commitment with the same code.',
 ['rangeproof/pedersen/pedersen.go','rangeproof/generators/generator.go'],[('hash-chain generators and commitments','pedersen.New, CommitToScalar, CommitToVectors; generator.Compute, Iterate, Clear')],[('Bases','the chain of generators computed so far','generator.Generator')],['commitment values and blinding factors','Bases'])
p('C23','Vector operations compute exactly and touch no operand',
 "Each scalar-vector operation (sum, difference, negation, products, inner product, powers and their sum, multi-exponentiation, splitting, constant vector) returns the algebraically exact result modulo the group order for all lengths, including empty vectors and zero scalars. Operands of different length give an error, operands are never modified, and the result of an arithmetic operation shares no memory with them.",
 ['inputs'],'all vectors, scalars, lengths and split points',
 'The tests compute a few sums on small vectors.',
 ['rangeproof/vector/vector.go'],[('element-wise scalar arithmetic','rangeproof/vector/vector.go')],(),['return values and operands of every function'])
p('C24','Hashes and checksums are exact, stateless functions of their input',
 "Each hash helper returns the standard digest of precisely the bytes given, whatever was hashed before or concurrently, into a slice of its own, without changing its input; hashing with a supplied hash object returns the digest of all that was written to it. The checksum is the first four bytes of the 64-bit xxHash and comparing accepts precisely that value; entropy requests return exactly the requested number of fresh random bytes.",
 ['inputs','histories'],'all byte strings of all lengths, all sequences of calls',
 'The tests pin one digest per function.',
 ['hash/hash.go'],[('thin wrappers over hash.Hash','hash/hash.go')],(),['return values'])
p('C25','Verifying, encoding and copying shared objects is safe concurrently',
 "Keys, signatures, ring signatures, proofs and trees that are no longer modified may be used by any number of goroutines at once: signing with, verifying, encoding, copying, aggregating and comparing shared objects has no data race and gives each caller the result it would get alone.",
 ['schedules'],'all interleavings of read-only operations on shared objects',
 'The tests are sequential and a race needs two conflicting unsynchronised accesses.',
 [B,M,'mlsag/mlsag.go','ringsig/blsag/blsag.go','rangeproof/rangeproof.go','hash/hash.go'],[('no hidden mutation of arguments','bls.Marshal/Verify, merkletree.VerifyTree, mlsag.Verify, blsag.Verify, rangeproof.Verify')],(),['race detector and results under concurrency'])
p('C26','Fiat-Shamir challenges bind the whole transcript, in order',
 "The transcript's content is the concatenation of all bytes appended since it was last cleared, its challenge is determined by that content alone; reading it changes nothing, and earlier results keep their value. Range and inner-product proofs made by an independent implementation of the protocol verify, and every message of the prover influences all challenges of the same argument (range proof or inner product) drawn after it.",
 ['inputs','histories'],'all sequences of append, read, derive and clear calls; all prover messages',
 'The test appends once and derives twice.',
 ['rangeproof/fiatshamir/fiatshamir.go','rangeproof/rangeproof.go','rangeproof/innerproduct/innerproduct.go'],[('append-only cache hashed to a scalar','fiatshamir.HashCacher; transcript order in Prove and Verify')],[('Cache','the bytes appended','fiatshamir.HashCacher')],['Result','Derive','Verify of independently made proofs'])
p('C27','A range proof tells nothing about the values but that they are in range',
 "Apart from the number of values (rounded up to a power of two), nothing in a range proof depends on the values it is about: each of the blinding factors of the commitments, of A, S, T1 and T2, and the vectors that mask the bits, is drawn anew, at random and independently for every proof. So two proofs of the same values have nothing in common, no message goes without its blinding and no blinding is used for two of them, and a guess of the values cannot be confirmed from the proof.",
 ['inputs','histories'],'all lists of values and all sequences of proofs',
 'A proof that reuses a blinding factor verifies like any other; a leak shows only in relations between what is published.',
 ['rangeproof/rangeproof.go','rangeproof/pedersen/pedersen.go'],[('blinding','rangeproof/rangeproof.go: Prove, computeS, computeTaux, computeMu; pedersen.CommitToScalar, CommitToVectors')],(),['the encoding of proofs, together with the randomness drawn meanwhile'])
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P), [ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
