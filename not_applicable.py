NA = {
 'P20': 'A computational statement about all adversaries (discrete logarithm on edwards448, SHAKE256 as a random oracle): no analysis '
        'of this source can establish it. The implementation side of it is claimed in P01, P03, P04 and P09.',
 'P21': 'Machine-level timing, caches and memory remnants are not functions of the source or its MIR; moreover the secret-indexed comb '
        'table look-up is part of the design and nothing is erased. The source-level part (control flow, addresses, divisions) is P13.',
 'P22': 'Quality and freshness of operating-system randomness are properties of rand, the kernel and the host, not of this source. What '
        'the crate does with the bytes is claimed in P14.',
}
