"""Which rules decide which property."""

ENGINE = ('Abstract interpretation of the MIR of /repo\'s current tree (type-checked, not run): every public entry '
          'point is analysed for unconstrained inputs; values are polynomials over input bytes, limb arrays carry '
          'a residue mod p or q with limb bounds, curve points carry a linear form over generators; paths are '
          'partitioned where a branch cannot be decided and every partition is compared with the specification. ')
TB = ['rustc_public\'s MIR and layouts describe the compiled program',
      'the transfer functions of /verif/engine model MIR statements, core intrinsics and the listed library '
      'functions (SHAKE256 absorbs its input and squeezes an arbitrary function of it)',
      'q and p are prime; d=-39081 and 1-d are non-squares mod p (addition formulas complete, no zero divisors)']

RULES = {}


def rule(pid, run, rule, explain='', assume=(), technique='abstract interpretation of MIR (polynomial/residue/'
         'point-form domain, trace partitioning)', note='', engine=True, features=()):
    RULES[pid] = {'run': run, 'rule': rule, 'explain': (ENGINE if engine else '') + explain,
                  'assume': TB + list(assume), 'technique': technique, 'features': list(features),
                  'note': note or 'Holds for all inputs of the analysed entry points (no bound on lengths or '
                  'values); decided from the source on every run, fails closed when the code leaves the analysed '
                  'fragment. Trusts the transfer functions of /verif/engine and the listed assumptions.'}


rule('P01', ['wnaf.spec_wnaf', 'spec_verify.spec_verdict'],
     'accepting partitions imply, and rejecting partitions exclude, the RFC 8032 acceptance condition',
     'The acceptance condition is a boolean polynomial over length, canonical-decoding, range and group-equation '
     'facts; the group equation is compared as a linear form over B, A, R with coefficients mod q.',
     )
rule('P02', ['spec_verify.spec_errors'],
     'each Err variant is returned only in partitions where its cause holds; no partition panics',
     '', ['as P01'])
rule('P03', ['spec_verify.spec_decode'],
     'a verdict is reached only for canonical encodings, no canonical encoding is refused, and the decoded '
     'residues are those of the encoded point')
rule('P04', ['spec_sig.spec_sign'],
     'the returned 114 bytes are enc([r]B) || (r + k*s mod q) with r, k hashes of exactly the RFC 8032 transcript')
rule('P05', ['spec_sig.spec_derive'],
     'the returned bytes are the encoding of [clamp(s)]B with s selected by the key-kind bit')
rule('P09', ['wnaf.spec_wnaf'],
     'every recoding window conserves (digits so far) + (rest) = scalar; every iteration of the evaluation loop maps '
     'OUT to 2*OUT plus exactly the digits whose power is the current bit',
     'Data-dependent loops are cut at their headers and decided by an inductive step on a generic loop state '
     '(difference-bound constraints for counters, linear forms for points).')
rule('P11', ['wnaf.spec_wnaf', 'spec_effects.spec_nopanic'],
     'no partition of a total entry point ends in a panic: every overflow, bounds, division and unwrap check is '
     'discharged or excluded by the path',
     'Overflow checks are part of the analysed MIR (debug profile), so the result also covers wrap-around in release '
     'builds; data-dependent loops terminate by the inductive steps of P09.')
rule('P12', ['spec_effects.spec_pure'],
     'no function reachable from a deterministic entry point touches mutable globals, thread-locals, atomics, clocks, '
     'the environment, I/O or randomness; the outcome of the abstract run mentions only the arguments',
     'Effect analysis over the call graph of the monomorphised MIR (drop glue and function-item callees included).',
     technique='call-graph effect analysis of MIR plus abstract interpretation')
rule('P13', ['spec_effects.spec_ct'],
     'every branch the abstract state does not decide depends on the key-kind bit or a length only; data-dependent '
     'addresses occur only in the constant comb table; no division has secret operands',
     'Dependence on secrets is read off the polynomial of the branch condition.',
     note='Source-level (MIR) control flow and addresses; says nothing about instruction selection or '
     'micro-architecture. The comb-table look-up is secret-dependent in the design and excepted.')
rule('P14', ['spec_keys.spec_random'],
     'the 57 key bytes are 57 distinct, unmodified output bytes of the generator, and the public key is theirs',
     'The generator is an uninterpreted source of bytes.')
rule('P15', ['spec_keys.spec_text'],
     'text is accepted exactly when it is 2n hex digits, the value is the bytes they denote, and serializing writes '
     'exactly those digits', 'hex::decode_to_slice and hex::encode are modelled by their documented contract; serde '
     'formats are an arbitrary serializer and deserializer.')
rule('P16', ['spec_keys.spec_types'],
     'each constructor yields exactly the key given together with its own public key or refuses; accessors, ==, clone '
     'and sign_prehash are exact')
rule('P17', ['wnaf.spec_wnaf', 'spec_verify.spec_verdict', 'spec_sig.spec_sign', 'spec_sig.spec_derive'],
     'the signing and derivation outcomes satisfy the acceptance condition the verdict analysis establishes',
     'Composition: signing yields R = enc([r]B), S = r + k*s < q with k over dom4||R||A||M and A = enc([s]B), which is '
     'what derivation returns; acceptance is exactly 4(S*B - k*A - R) = 0 for canonical R, A and S < q, and '
     'S*B - k*A - R = 0 identically.')
rule('P18', ['wnaf.spec_wnaf', 'spec_effects.spec_memory'],
     'every load, store, copy and comparison of every partition of every public operation lies inside the object its '
     'pointer was derived from',
     'The abstract memory has one object per allocation with exact (possibly symbolic) size; an access is discharged when '
     'the path condition implies offset + length <= size.',
     technique='abstract interpretation of MIR (object-based memory model with symbolic sizes)',
     note='Spatial safety and absence of reads of unwritten memory on every path, also inside unsafe blocks. Temporal safety '
     '(use after free) is left to the borrow checker: it is only at stake if unsafe code is added.')
rule('P10', ['spec_sig.spec_derive', 'spec_sig.spec_sign', 'spec_verify.spec_decode'],
     'every emitted key and R is the canonical encoding of its point for all projective representations, every emitted S '
     'is the reduced residue; decoding accepts exactly these and yields the same point',
     'Encoding bytes are compared with those of the unique representative in [0, p) (resp. [0, q)) of the residue, so an '
     'encoder that emits another representative on some path does not match.')
rule('P06', ['spec_points.spec_points'],
     'the result of doubling, adding, subtracting, multiplying and converting points is the linear form the operation names, '
     'for all points and all 448-bit scalars; comparing is comparing forms',
     'Scalars are unconstrained; table look-ups are resolved as sums over all entries weighted by the digit.',
     features=['pt_mul', 'pt_group', 'pt_eq', 'pt_curve', 'pt_identity'])
