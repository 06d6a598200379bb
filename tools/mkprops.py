#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one place to edit the property texts).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,
        **({"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state]} if state else {}),
        "mechanism":[{"name":a,"where":b} for a,b in mech],
        **({"observe_at":observe} if observe else {}),"hook_needed":None}})
I=["inputs"]
p("C01","Scalar arithmetic is exact arithmetic modulo the group order",
 "For all scalars, addition, subtraction, multiplication, negation, inversion (zero maps to zero), assignment, equality, the zero test and the high-half test give exactly the result of arithmetic modulo the secp256k1 group order, whatever objects serve as receiver and operands (including the receiver being an operand). The result is stored in and returned as the receiver, and no other scalar changes. Clones are independent of their original.",
 I,"all scalar values and all ways the receiver and the operands may be the same object",
 "Tests check a few identities on random values with distinct objects; carry and half-order boundaries and every aliasing pattern are never enumerated.",
 ["curve/scalar.go","curve/k256_scalar.go"],[("Secp256k1Scalar methods","curve/k256_scalar.go"),("scalar constructors","curve/scalar.go")],
 [("scalar","the residue modulo the group order","curve/k256_scalar.go Secp256k1Scalar.scalar")])
p("C02","Point arithmetic is the secp256k1 group",
 "For all points and scalars, addition, subtraction, doubling, scalar multiplication, multiplication by a node index plus one, two-term linear combinations, Pedersen combination, equality and the identity test agree with the secp256k1 group of prime order, whatever objects serve as receiver and operands. The generators are the two fixed ones, in-place operations change only their receiver, and the others change nothing.",
 I,"all points, scalars, node indices and aliasing patterns of receiver and operands",
 "Tests compare a handful of multiples; they never add into the right operand and cannot cover every scalar, index bit pattern or the identity in every position.",
 ["curve/point.go","curve/k256_point.go"],[("Secp256k1Point methods","curve/k256_point.go"),("MulPoints, Pedersen, MulByG","curve/point.go")],
 [("point","the group element","curve/k256_point.go Secp256k1Point.point")])
p("C03","Scalar and field encodings are canonical and strict",
 "Encoding a scalar or base-field element gives its unique 32-byte big-endian (optionally curve-tagged) form, and decoding it gives the same value back. Decoding any other byte string, of any length, unreduced or with an unknown tag, reports an error: it never panics, truncates, pads or reduces. Wide decoding of at most 64 bytes reduces the big-endian integer modulo the modulus and longer input is rejected.",
 I,"all values and all byte strings of every length",
 "Tests decode a few well-formed strings; strictness is a statement about every malformed string.",
 ["curve/scalar.go","curve/k256_scalar.go","curve/fe.go","curve/k256_fe.go"],[("Deserialize, DeserializeTagged, FromBytesWide","curve/scalar.go"),("FromBytes, AsBytes","curve/k256_fe.go")])
p("C04","Point encodings round-trip and decoding only yields curve points",
 "Encoding a point in compressed, tagged or uncompressed form and decoding it gives the same point back, the identity included, and equal points have identical encodings. Decoding any byte string either reports an error or yields the curve point with exactly those coordinates: it never panics, and never accepts coordinates that are off the curve or not reduced, a wrong length, or an unknown tag.",
 I,"all points and all byte strings of every length",
 "Tests feed valid compressed points and a few truncations; off-curve and unreduced inputs and the identity in each format are not sampled.",
 ["curve/point.go","curve/k256_point.go","curve/encode.go"],[("Deserialize, DeserializeTagged, DeserializeAnyFormat","curve/point.go"),("decompress, fromUncompressed, encodePoint","curve/k256_point.go"),("EncodePoint32","curve/encode.go")])
p("C05","Seeds, byte expansion and the random stream are deterministic and conform",
 "Byte expansion equals RFC 9380 expand_message_xmd with SHA-256 for every message, domain separator (hashed first when it is 256 bytes or longer) and output length up to 8160, and longer requests are rejected. Seeds and derived seeds are the 32-byte expansion of the input under the given label, and a generator made from a seed yields the ChaCha20 key stream of that seed in order, independently of what the output buffers held.",
 I,"all messages, separators, lengths, and all sequences of reads from a generator",
 "Tests compare a few RFC vectors; lengths around multiples of 32 and 256, oversize separators and non-zero output buffers are not covered.",
 ["seed/xmd.go","seed/seed.go","rand/chacha20.go"],[("ExpandMessageXmd","seed/xmd.go"),("NewSeed, Derive, Rng","seed/seed.go"),("FillUint8, Uint32, Uint64","rand/chacha20.go")])
p("C06","Hashing to scalars, field elements and points follows RFC 9380",
 "Hashing to scalars or field elements consumes 48 bytes of expanded output per element, in order, each reduced from its big-endian integer; hashing to a point maps two field elements with the simplified SWU map and its isogeny and adds the images. The result depends only on the input and domain separator, and the arguments are left unchanged.",
 I,"all inputs, domain separators and element counts",
 "Tests compare five known vectors on the curve and one for scalars; exceptional field elements (zero, zero denominators) occur with negligible probability in them.",
 ["curve/hash_to_curve.go","curve/k256_fe.go","curve/fe.go"],[("HashToScalar, HashToField, HashToCurveRo, MapToCurve, sswu, sswuIsogenySecp256k1","curve/hash_to_curve.go")])
p("C07","The random oracle binds every named input",
 "The oracle's output is a function of exactly its domain separator and the set of its named typed inputs, whatever order they were added in, through an encoding in which two different sets of inputs never collide. Adding an empty or over-long name, a repeated name or an over-long value is reported as an error and leaves the oracle unchanged, and an oracle without inputs produces no output.",
 I,"all sets of names and values, all insertion orders, all output kinds and lengths",
 "The one test hashes a single fixed input set; injectivity is about pairs of input sets.",
 ["ro/ro.go"],[("AddInput, formRoInput, OutputScalars, OutputByteString, OutputPoint","ro/ro.go")],
 [("inputs","name to encoded typed value","ro/ro.go RandomOracle.inputs")])
p("C08","Polynomial operations compute exact polynomial arithmetic",
 "For all polynomials over the scalar field, sum, product, scaling, evaluation, coefficient access, equality and the zero test agree with the mathematical operations, and the operands are left unchanged. Interpolating samples at pairwise distinct points returns a polynomial of degree below the number of samples through all of them, and repeated points are rejected.",
 I,"all coefficient lists (empty, with leading zeros) and all sample lists",
 "Tests use random polynomials, for which coinciding or vanishing intermediate values never occur.",
 ["poly/poly.go"],[("Add, Mul, MulScalar, EvaluateAt, Equal, Interpolate","poly/poly.go")])
p("C09","Lagrange coefficients reconstruct exactly",
 "For every non-empty list of pairwise distinct node indices and every evaluation point, the coefficients returned are the Lagrange basis values, so combining the samples of any polynomial of degree below the number of nodes gives its value at that point, for scalars and for points alike. Empty lists, repeated indices and sample lists of another length are rejected, and the arguments are left unchanged.",
 I,"all index lists of any length and order, all evaluation points (also coinciding with a node), all samples",
 "Tests use a few random index sets; the algebraic identity holds or fails for all sizes.",
 ["poly/lagrange.go"],[("AtValue, AtZero, InterpolateScalar, InterpolatePoint, checkForDuplicates","poly/lagrange.go")])
p("C10","Commitments open exactly to the committed polynomial",
 "A commitment to a polynomial (simple) or pair of polynomials (Pedersen) holds one point per coefficient up to the requested number and is refused if any higher coefficient is non-zero. Evaluating it at a node gives the commitment to the polynomial's value at that node, and an opening is accepted if and only if it has the commitment's type and commits to that evaluation.",
 I,"all polynomials, lengths, node indices and openings",
 "Tests only check that creation succeeds and that swapped polynomials differ.",
 ["poly/commitment.go"],[("Create, EvaluateAt, CheckOpening, ReturnOpeningIfConsistent, VerifyIs","poly/commitment.go")],
 [("points","commitments to the coefficients","poly/commitment.go SimpleCommitment.points, PedersenCommitment.points")])
p("C11","Serialized commitments and openings decode to equal values",
 "Serializing a commitment or an opening of either type and decoding it yields the same type with equal contents, which can be used wherever the original can; malformed bytes are rejected without a panic. Equality holds exactly for the same type and the same points in order, and the stable representation is the type letter, the curve tag and the point encodings, so it determines the commitment.",
 I,"all commitments, openings and byte strings",
 "Tests round-trip one simple commitment and one simple opening.",
 ["poly/commitment.go","curve/k256_scalar.go","curve/k256_point.go","dealings/transcript_operation.go"],[("Serialize, Deserialize, StableRepresentation, Equal","poly/commitment.go"),("Compare","dealings/transcript_operation.go")])
p("C12","Discrete-log equality proofs are complete and bind their statement",
 "A proof created from a witness verifies against the statement it was made for with the same associated data. Verification succeeds if and only if the challenge in the proof equals the hash of the associated data, both bases, both images and the two commitments recomputed from the proof, so nothing in the statement can be changed without changing that hash.",
 I,"all bases, witnesses, seeds, proofs and associated data of any length",
 "Tests verify two honest proofs; dropped hash inputs or unchecked equations go unnoticed.",
 ["zk/dlog.go"],[("Create, Verify, RecoverCommitments, HashToChallenge","zk/dlog.go")])
p("C13","Equal-opening proofs are complete and bind their statement",
 "A proof that a Pedersen commitment and a simple commitment open to the same value, created from the witness, verifies against those commitments with the same associated data. Verification succeeds if and only if the proof's challenge equals the hash, under its own domain separator, of the associated data, both generators, both commitments and the commitment recomputed from the proof.",
 I,"all witnesses, commitments, seeds, proofs and associated data of any length",
 "Tests verify one honest proof.",
 ["zk/equal_opening.go"],[("Create, Verify, RecoverCommitments, HashToChallenge","zk/equal_opening.go")])
p("C14","Product proofs are complete and bind their statement",
 "A proof that a Pedersen commitment contains the product of a simple and a Pedersen committed value, created from a witness, verifies whenever the product relation holds. Verification succeeds if and only if the proof's challenge equals the hash, under its own domain separator, of the associated data, both generators, the three commitments and the two commitments recomputed from the proof.",
 I,"all witnesses, commitments, seeds, proofs and associated data of any length",
 "Tests verify one honest and one dishonest proof.",
 ["zk/product.go"],[("Create, Verify, RecoverCommitment, HashToChallenge","zk/product.go")])
p("C15","Every recipient decrypts exactly the plaintext meant for it",
 "Encrypting one scalar, or one pair of scalars, per recipient yields a ciphertext with as many entries as recipients, from which each recipient, with its own key and index and the same dealer index and associated data, decrypts exactly its plaintext. Mismatched or empty lists are rejected, and an index beyond the ciphertext is an error.",
 I,"all plaintexts, key pairs, numbers of recipients, indices, seeds and associated data",
 "Tests encrypt for two recipients with one seed.",
 ["mega/ciphertext.go","mega/mega.go","mega/key.go"],[("EncryptCiphertextSingle, EncryptCiphertextPair, Decrypt, DecryptFromSharedSecret","mega/ciphertext.go"),("megaHashToScalars, ComputeEphKeyAndPop","mega/mega.go")])
p("C16","Ciphertexts are bound to their context and checked before use",
 "The masks of a ciphertext are hashes of the kind, dealer index, recipient index, associated data, recipient key, ephemeral key and shared secret. Decryption and validity checking succeed only if the ciphertext's proof of possession verifies for its ephemeral key under the given kind, dealer index and associated data, and validity also requires the expected number of recipients.",
 I,"all ciphertexts, including adversarial ones, and all contexts",
 "Tests alter one field of one ciphertext.",
 ["mega/mega.go","mega/ciphertext.go"],[("VerifyPop, ComputePopBase, megaHashToScalars","mega/mega.go"),("CheckValidity, Decrypt, VerifyIs, DecryptAndCheck","mega/ciphertext.go")])
p("C17","Created dealings share the intended secret",
 "A created dealing has a commitment of exactly threshold points, of the type its secret kind calls for, and encrypts to each recipient the value of the committed polynomials at that recipient's index. For resharing and products the constant term commits to the given secret or to the product, and the attached proof is the one for that kind; a threshold out of range or an unknown secret kind is an error.",
 I,"all secrets, thresholds, recipient lists, dealer indices, seeds and associated data",
 "Tests create a few dealings with random secrets and check that no error is returned.",
 ["dealings/dealings.go","dealings/secret_shares.go"],[("NewIDkgDealingInternal, EncryptAndCommitSinglePolynomial, EncryptAndCommitPairPolynomial","dealings/dealings.go"),("From","dealings/secret_shares.go")])
p("C18","Dealing verification accepts exactly well-formed dealings",
 "Public verification accepts a dealing only if the commitment has the threshold's length and the curve, the ciphertext is valid for the number of receivers, dealer and associated data, commitment and ciphertext types fit the operation, and the operation's proof or constant-term equation holds against the previous transcript evaluated at the dealer; if all of these hold it accepts. Private verification accepts exactly if the recipient's decrypted share opens the commitment, and neither panics on a missing or wrong proof.",
 I,"all dealings, also malformed ones, and all operations, thresholds and contexts",
 "Tests verify honest dealings only, apart from a few wrong arguments.",
 ["dealings/dealings.go","dealings/zk_proof.go"],[("PubliclyVerify, PrivateVerify","dealings/dealings.go")])
p("C19","Transcripts combine dealings correctly",
 "A transcript of random dealings commits to the sum of the dealings' polynomials; resharing and product transcripts commit to their Lagrange interpolation at zero over the dealer indices, and resharing an unmasked value preserves its public key. Dealings of the wrong length or commitment type, too few dealings and unknown operations are rejected, and the dealings are left unchanged.",
 I,"all collections of dealings, thresholds and operations",
 "Tests combine small honest sets.",
 ["dealings/transcript.go","dealings/combined_commitment.go"],[("NewTranscriptInternal, CombineCommitmentsViaInterpolation","dealings/transcript.go")])
p("C20","Opened and reconstructed shares are consistent with their commitment",
 "A share obtained from dealings, or reconstructed from other receivers' openings, is returned only if it opens the commitment at the receiver's index, and its value is the sum, or the Lagrange combination, of the dealt shares. Too few openings, or openings of the wrong type, are errors.",
 I,"all dealings, opening sets, receiver indices and transcript kinds",
 "Tests run the protocol with a few honest parties.",
 ["dealings/commitment.go","dealings/transcript.go"],[("FromDealings, FromDealingsAndOpenings, CombineOpenings, OpenDealing","dealings/commitment.go"),("ReconstructShareFromOpenings","dealings/transcript.go")])
p("C21","Complaints are raised exactly against bad shares and verify exactly then",
 "Complaint generation yields a complaint against precisely the dealers whose share fails to decrypt or to open the commitment, and reports an error if there is none. A complaint verifies if and only if its proof shows the shared secret belongs to the complainer's key for that dealing, dealer, complainer and associated data, and the share decrypted with it fails to open the commitment.",
 I,"all dealings, complainers, contexts and complaints, also spurious ones",
 "Tests corrupt one ciphertext entry of one dealing.",
 ["complaints/complaints.go"],[("GenerateComplaints, NewComplaintInternal, Verify, createProofAssocData","complaints/complaints.go")])
p("C22","Key derivation follows generalized BIP32",
 "For every public key and derivation path, the derived tweak is the sum of the per-level HMAC-SHA512 offsets, each level keyed by the previous chain code over the compressed parent key and the index bytes, and the derived public key is the master key plus the tweak times the generator, with the last chain code. An unusable index is replaced by its successor, which is the big-endian increment, growing by a byte on overflow.",
 I,"all public keys, paths of any length and index bytes of any length",
 "Tests increment a few indices; derivation itself is only exercised with one path.",
 ["key/key_derivation.go","sign/sign.go"],[("ckdpub, DeriveTweak, Next","key/key_derivation.go"),("DerivePublicKey","sign/sign.go")])
p("C23","Signature shares are computed and verified against the transcripts",
 "A signature share is the opening of the linear combination of the lambda, key-times-lambda and kappa-times-lambda shares with coefficients determined by message hash, key tweak, rerandomized nonce and randomness. It verifies if and only if both of its openings commit to that same combination of the transcripts evaluated at the signer, so shares computed from consistent openings always verify, and openings of the wrong type are rejected.",
 I,"all transcripts, openings, messages, randomness, paths, signers and shares",
 "No test verifies a share that should be rejected.",
 ["sign/share.go","sign/sign.go"],[("NewThresholdEcdsaSigShareInternal, Verify","sign/share.go"),("DeriveRho, ConvertHashToInteger, EcdsaConversion","sign/sign.go")])
p("C24","Combined signatures are valid low-s ECDSA signatures",
 "Combining at least a threshold of shares gives the rerandomized nonce's conversion and the quotient of the interpolated numerators and denominators, negated if needed so that s is never in the high half. Verification accepts exactly the signatures with non-zero r and s, low s, r equal to the rerandomized nonce's, and whose ECDSA equation under the derived public key and 32-byte message hash gives that nonce's x coordinate; fewer shares are rejected.",
 I,"all share sets, messages, randomness, paths and transcripts",
 "Tests run one honest signing.",
 ["sign/combined_sig.go","sign/sign.go"],[("NewThresholdEcdsaCombinedSigInternal, Verify","sign/combined_sig.go"),("DeriveRho","sign/sign.go")])
p("C25","Protocol operations never modify what they are given",
 "No operation on polynomials, Lagrange coefficients, commitments, ciphertexts, proofs, dealings, transcripts, complaints, keys or signatures changes the scalars, points, byte strings or containers passed to it, except the receiver of an in-place operation. Hence verifying, opening or combining twice gives the same answer, and a value can be shared between operations.",
 ["inputs","histories"],"all operations, all arguments and all sequences of operations on shared values",
 "Every arithmetic operation works in place, so a single missing copy corrupts a shared value; tests rarely use a value again after passing it on.",
 ["poly/poly.go","poly/lagrange.go","poly/commitment.go","zk/dlog.go","zk/equal_opening.go","zk/product.go","mega/ciphertext.go","dealings/transcript.go","dealings/commitment.go","complaints/complaints.go","key/key_derivation.go","sign/share.go","sign/combined_sig.go"],
 [("copies taken before in-place arithmetic","poly, zk, mega, dealings, key, sign")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
