import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if obs: a['observe_at']=[obs]
    if state: a['state']=state
    P.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})
G='src/goldilocks.rs'; E='src/eddsa.rs'; X='src/extended_point.rs'; B='src/bignumber.rs'; S='src/scalar.rs'
p('P01','Verification accepts exactly the valid signatures',
 "For every public key, signature and message, ed448_verify and ed448_verify_with_error report success if and only if: the public key is a 57-byte and R (the first 57 signature bytes) a canonical encoding of a curve point, the signature is exactly 114 bytes, S (the last 57 bytes, little-endian) is less than the group order q, neither the key nor the signature is all zero, and the cofactored equation 4([S]B - [k]A - R) = 0 holds with k = SHAKE256(\"SigEd448\" || 0 || 0 || R || A || M, 114) taken over the bytes exactly as received.",
 ['inputs'],'every public key byte string, signature byte string and message',
 'acceptance is decided by 2^1368 key/signature pairs and unbounded messages; tests try a handful of valid and flipped ones, and a forged accept needs algebraically chosen inputs',
 [G,E,X],[('ed448_verify_with_error',G),('dsa_verify',E),('hash_with_dom',E),('eddsa_like_decode',X),('decaf equality of points',X)],'result of ed448_verify and ed448_verify_with_error')
p('P02','Every refused verification reports the cause that applies',
 "ed448_verify_with_error returns Ok(()) or the error whose cause really holds: InvalidPubkeyLengthError only for a key that is not 57 bytes, InvalidSignatureLengthError only for a signature that is not 114 bytes, DecodePubkeyError only for a key that is not a canonical curve-point encoding, DecodeSignatureError only when R is not one, InvalidSignatureError only when everything decodes and the signature is nevertheless invalid (or key or signature are all zero). It never panics for any input lengths or contents, and ed448_verify accepts exactly when ed448_verify_with_error returns Ok(()).",
 ['inputs'],'every public key, signature and message of any length',
 'malformed inputs form a space of lengths and contents that tests only touch at a few points; a panic or a wrong error needs one specific length or encoding',
 [G,E,'src/errors.rs',X],[('ed448_verify_with_error',G),('ed448_verify',G),('dsa_verify',E),('From/variants of LibgoldilockErrors','src/errors.rs')],'returned Result')
p('P03','Point decoding accepts exactly canonical encodings and yields that point',
 "A 57-byte string is accepted as a public key or as R if and only if it is the canonical RFC 8032 encoding of a point of edwards448: bits 448..454 are zero, y < p, x^2 = (1-y^2)/(1-d y^2) has a solution, and the sign bit is clear when x = 0. The point obtained is that point: same y, and the x whose parity equals the sign bit.",
 ['inputs'],'all 2^456 candidate encodings',
 'non-canonical or off-curve encodings that slip through are a 2^-28 or smaller fraction of all inputs and are only found by construction',
 [X,B],[('eddsa_like_decode',X),('dsa_like_deserialize',B),('is_on_curve',X),('isr',B),('low_bit / decaf_cond_negate',B)],'verification verdict; decoded coordinates')
p('P04','Signatures are the RFC 8032 function of key and message',
 "For every 57-byte key, and every message, ed448_sign (and SigningKey signing) returns R || S || 0 with R = enc([r]B), r = SHAKE256(dom4 || prefix || M, 114) mod q, k = SHAKE256(dom4 || R || A || M, 114) mod q, S = (r + k*s) mod q fully reduced, A = enc([s]B). For a private key (bit 7 of byte 56 clear) s and prefix are the clamped first and the second 57 bytes of SHAKE256(key, 114); for an expanded secret key (bit set) both s and prefix are the clamped key. The message enters whole and unmodified. No key or message makes it panic.",
 ['inputs'],'every key of both kinds and every message of any length',
 'the fixed vectors fix the transcript for a few keys and messages only; reductions, carries or length-dependent absorption can go wrong for rare values',
 [G,E,S],[('ed448_sign',G),('sign_by_private / sign_with_secret_and_nonce',G),('hash_with_dom',E),('scalar mul/add/encode',S),('clamp',E)],'the 114 returned bytes')
p('P05','Derived public and secret keys are the RFC 8032 ones for both key kinds',
 "For every 57-byte key, ed448_derive_public returns enc([s]B) where s is the clamped SHAKE256 expansion of a private key (bit 7 of byte 56 clear) or the clamped key itself for an expanded secret (bit set); clamping clears the two low bits, zeroes byte 56 and sets bit 7 of byte 55. private_to_secret(k) is SHAKE256(k, 57) with the key-kind bit set, so ed448_derive_public(private_to_secret(k)) = ed448_derive_public(k). No key makes it panic.",
 ['inputs'],'every 57-byte key of both kinds',
 'key derivation must agree for 2^456 keys; tests fix a dozen and cannot see bits that are dropped or masked for other keys',
 [G,E,X],[('ed448_derive_public',G),('private_to_secret / secret_to_public',G),('clamp',E),('point_by_secret',G),('precomputed_scalar_mul',X)],'returned public key bytes')
p('P06','Point operations are the operations of the group',
 "For the points point_by_secret returns, whatever the key and whatever projective representation they are in: point_scalar_mul(s) is s times the point for every scalar of 14 words (zero, values of 446 bits and more included), double_internal doubles, add_projected_niels_to_extended and sub_projected_niels_from_extended_point add and subtract any two of them (equal and opposite ones included), conversion to Niels form and back keeps the point, is_on_curve is true, and mod_equal holds exactly when the two points are equal. Encoding the result with eddsa_like_encode gives the RFC 8032 encoding of that group element.",
 ['inputs'],'every key and every 448-bit scalar',
 'verification only ever multiplies by 4 and tests use a few points: digits, windows, signs and exceptional pairs (P+P, P-P) of other arguments are never exercised',
 [G,X],[('point_by_secret',G),('point_scalar_mul',X),('prepare_fixed_window',X),('double_internal',X),('mod_equal',X)],'encoded results')
p('P09','Double-scalar multiplication is exact for every pair of scalars',
 "For every point A of the group generated by decoding and all 446-bit scalars s and t (zero, one and q-1 included), the variable-time double-scalar multiplication that verification relies on returns the group element s*B + t*A: the signed-digit recoding of a scalar represents exactly that scalar for both window widths and always fits and terminates its digit table, every digit is used at its own bit position with its own sign and multiple, the precomputed odd multiples of B and the computed ones of A are the right points, and no index leaves a table.",
 ['inputs'],'all scalars below 2^446 and all points',
 'recoding depends on carry chains through 446 bits: digit patterns that overflow a table, coincide in both scalars or end at bit 0 have negligible probability in sampled tests',
 [X,'src/decaf_wnaf_table.rs'],[('recode_wnaf',X),('point_double_scalamul_non_secret',X),('decaf_prepare_wnaf_table',X),('DECAF_WNAF_TABLE','src/decaf_wnaf_table.rs'),('add/sub (projected) niels, double_internal',X)],'returned point')
p('P11','No input makes a total operation panic, overflow or loop forever',
 "ed448_verify, ed448_verify_with_error, ed448_sign, ed448_derive_public, the sign_*/private_*/secret_* helpers, SigningKey::from_bytes, From<SecretKey>, sign_prehash, random, the accessors, ==, clone, Serialize and Deserialize return normally for every argument: whatever the slice lengths and byte contents, no index leaves its array, no arithmetic overflows (debug or release), no unwrap fails and every data-dependent loop terminates. (from_str, from_slice and SecretKey/VerifyingKey::from_bytes panic on malformed text or length by contract.)",
 ['inputs'],'all arguments of every listed operation, of any length and content',
 'a panic needs one particular length, carry pattern or encoding out of an astronomically large input space',
 [G,E,X,B,S,'src/lib.rs'],[('ed448_verify_with_error',G),('dsa_verify',E),('recode_wnaf',X),('field and scalar carry chains',B),('Deserialize impls','src/lib.rs')],'normal return of the operation')
p('P12','Operations are pure: same arguments, same result, in any history or thread',
 "Verification, signing, key derivation, the key constructors other than random, comparison, cloning and (de)serialization are functions of their arguments alone: no global or thread-local state, clock, environment, I/O or randomness influences them or is changed by them, and arguments taken by reference are left unmodified. Any interleaving or repetition of calls, in any order and on any threads, therefore gives the same results; signing is deterministic.",
 ['schedules','histories'],'every history and every concurrent interleaving of calls',
 'tests run one order of calls in one process; hidden state shows only after particular earlier calls or under concurrency',
 [G,E,X,B,S,'src/lib.rs'],[('ed448_sign / ed448_verify / ed448_derive_public',G),('dsa_verify, hash_with_dom',E),('constant tables',X)],'results of repeated and concurrent calls')
p('P13','Signing and key derivation have secret-independent control flow',
 "While signing or deriving a public key, which branches are taken and how often loops run depends only on the key-kind bit (bit 7 of byte 56) and on the message length, never on any other bit of the key, the nonce, a hash output or an intermediate scalar or coordinate; addresses depend on secrets only inside the constant comb table look-up, and no division or remainder has secret operands.",
 ['inputs'],'all keys, messages and intermediate values',
 'a functional test cannot observe control flow, and a timing test samples a few keys; a leaking branch can be rare',
 [G,X,B,S],[('constant_time_select / decaf_cond_negate',B),('precomputed_scalar_mul, conditional_negate, lookup',X),('sub_extra / montgomery_multiply / halve',S),('clamp',E)],'branch conditions and addresses in the compiled program (MIR)')
p('P14','Generated keys consist entirely of fresh generator output',
 "ed448_generate_key and SigningKey::random(rng) return a key whose 57 bytes are 57 distinct output bytes of the cryptographic generator (the thread generator, or the one passed in), none fixed, masked, reused or derived from another; SigningKey::random also stores the public key of exactly these bytes.",
 ['inputs'],'every output the generator can produce',
 'missing entropy in a few bytes or bits looks random to any test that samples generated keys',
 [G,'src/lib.rs'],[('ed448_generate_key',G),('SigningKey::random','src/lib.rs')],'the generated key bytes')
p('P15','Text forms round-trip and malformed text is refused',
 "hex_to_private_key, hex_to_signature, hex_to_message_hash and the from_str constructors return exactly when the text is 2n hex digits (n = 57, 114, 32, 57) and then return the n bytes the digits denote (and, for SigningKey, their public key); they never return a value for other text. Serialize hands the serializer one string, the 114 lower-case hex digits of the key (the secret key for SigningKey); Deserialize yields the denoted key for a human-readable string of 114 hex digits and an error, never a panic or another key, for everything else. So deserialize(serialize(k)) = k for every key of all three types.",
 ['inputs'],'every text of any length and content, and every key',
 'text inputs are unbounded; tests try one repeated-digit key and cannot see a dropped byte, an accepted odd length or a panic on other input',
 ['src/lib.rs',G],[('Serialize/Deserialize impls, key_from_hex','src/lib.rs'),('from_str','src/lib.rs'),('hex_to_*',G)],'parsed keys, emitted text, errors')
p('P16','Key objects hold exactly the key given together with its own public key',
 "Every way to build a SigningKey from a key (from_slice, from_bytes, From<SecretKey>) stores exactly the 57 bytes given and the public key ed448_derive_public computes from them; from_bytes of SecretKey and VerifyingKey store exactly the bytes given; each succeeds exactly for 57 bytes (SigningKey::from_bytes otherwise returns InvalidPrivKeyLengthErrro with the length). to_bytes, secret_key, verifying_key, as_bytes and as_slice return the stored bytes, clone copies all of them, == holds exactly when all bytes agree, and sign_prehash returns the RFC 8032 signature of the message under the secret key followed by the stored verifying key (171 bytes).",
 ['inputs'],'all keys, byte strings of any length and messages',
 'a constructor or accessor that mixes up, truncates or fails to refresh a part of a key object does so for values the few test keys do not distinguish',
 ['src/lib.rs'],[('SigningKey constructors','src/lib.rs'),('PrehashSigner for SigningKey','src/lib.rs'),('accessors, PartialEq, Clone','src/lib.rs')],'stored bytes, public key, signature bytes')
p('P10','Everything emitted is in canonical form and is read back as the same value',
 "Every public key and every R the library emits is the unique canonical encoding of its point (y < p fully reduced, bits 448..454 zero, the top bit the parity of x), whatever projective representation the point was computed in, and every S emitted is below the group order with a zero last byte. Consequently equal points and scalars give equal bytes, and each emitted encoding is accepted by verification and decoded to the same point.",
 ['inputs'],'every key and message, every intermediate projective representation',
 'an unreduced coordinate or scalar shows only for values within a few units of the modulus or a particular limb pattern, a 2^-28 or smaller fraction of outputs',
 [X,B,S],[('eddsa_like_encode',X),('dsa_like_serialize / strong_reduce',B),('eddsa_like_decode',X),('encode / sub_extra',S)],'emitted public keys and signatures')
p('P18','No call can read or write outside its objects',
 "Every load, store and copy made by any public operation, for arguments of any length and content, stays inside the array, slice, vector or table it belongs to and never reads memory that was not written: no operation has undefined behaviour, in safe or unsafe code, and none of them depends on memory beyond its arguments.",
 ['inputs'],'all arguments of all public operations, of any length and content',
 'an out-of-bounds read returns plausible neighbouring bytes in a test and needs a particular length, digit or index to occur at all',
 [G,E,X,B,S,'src/lib.rs'],[('slices of keys and signatures',E),('table look-ups',X),('limb loops',B),('key constructors','src/lib.rs')],'memory accesses of the compiled program (MIR)')

p('P17','Every signature produced verifies under the derived public key',
 "For every 57-byte key of either kind and every message, ed448_verify(ed448_derive_public(key), ed448_sign(key, msg), msg) succeeds, and so does verifying the first 114 bytes of sign_prehash under the key's verifying key; no key, nonce or message (empty and very long ones included) yields a signature or public key that verification refuses.",
 ['inputs'],'all keys and all messages',
 'round-trip tests sample a few keys; a carry, reduction or encoding fault that affects one key in 2^30 or one digit pattern stays invisible',
 [G,E,X,B,S],[('ed448_sign',G),('ed448_derive_public',G),('ed448_verify / dsa_verify',E),('eddsa_like_encode / eddsa_like_decode',X)],'verdict on freshly produced signatures')
p('P20','Signatures cannot be forged without the secret key',
 "Nobody who does not know the secret key can produce, even after seeing signatures on messages of their choice, an accepted signature on another message (EUF-CMA), nor a second accepted signature on the same message (strong unforgeability).",
 ['histories'],'every efficient adversary and every history of signing queries',
 'a statement about all adversaries cannot be sampled',
 [G,E],[('ed448_verify',G),('ed448_sign',G)],'accepted signatures')
p('P21','Signing leaks no secret through time, caches or memory remnants',
 "The time, cache and bus behaviour of signing and key derivation on the machine, and the memory left behind afterwards, reveal nothing about the key beyond its kind.",
 ['inputs','schedules'],'all keys, machines and co-resident observers',
 'a timing test samples a few keys on one machine',
 [G,X],[('precomputed_scalar_mul table look-up',X),('sign_by_private',G)],'time, cache state, memory contents')
p('P22','The generator behind generated keys is unpredictable',
 "The bytes rand::thread_rng or the caller's CryptoRng supply to ed448_generate_key and SigningKey::random are indistinguishable from uniform and never repeat across processes, forks or restored snapshots.",
 ['histories','schedules'],'all process histories',
 'predictable seeds look random to every test',
 [G],[('ed448_generate_key',G)],'distribution of generated keys')

P.sort(key=lambda x:x['id'])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
