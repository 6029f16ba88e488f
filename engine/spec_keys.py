"""Key types: constructors, accessors, text forms, generated keys, and the signatures they produce."""
from specbase import *
from spec_sig import *
from natives import HEX, rope_key


def offs(ctx, ty, *path):
    """offset of a part of a key type; parts are found by type, so private fields may be renamed"""
    p = ctx.prog
    off = 0
    for n in path:
        if n == 'key' or n == 'sig':
            fs = [f for f in p.fields(ty) if p.size(f[2])]
        else:
            want = {'secret_key': 'SecretKey', 'verifying_key': 'VerifyingKey'}[n]
            fs = [f for f in p.fields(ty) if (p.T[f[2]].get('name') or '').split('::')[-1] == want]
        if len(fs) != 1:
            raise Viol('layout', 'the representation of %s is not understood' % p.T[ty]['str'])
        off += fs[0][1]
        ty = fs[0][2]
    return off


def pub_ok(run, o, key, bs, what):
    """bs is the public key of these 57 key bytes, by the key's kind"""
    b = GE(sub(key[56], 128))
    b = run.ip.apply_known(o.st, b) if b.__class__ is Poly else b
    if b.__class__ is int or implies(o.st.conds, b) or implies(o.st.conds, sub(1, b)):
        kind = b if b.__class__ is int else (1 if implies(o.st.conds, b) else 0)
    else:
        raise Viol(what + ': key kind', what + ': the public key does not depend on the key-kind bit')
    if kind:
        is_public_of(bs, clamp(key), what)
    else:
        is_public_of(bs, secret_from_seed(run, o, key, what)[0], what)


def signing_key(ctx, run, o, v, ty, key, what):
    """v is the SigningKey of these key bytes"""
    bs = blob_bytes(v, ctx.prog.size(ty))
    so, vo = offs(ctx, ty, 'secret_key', 'key'), offs(ctx, ty, 'verifying_key', 'key')
    if not same_bytes(bs[so:so + 57], key):
        raise Viol(what + ': secret', what + ': the stored secret key is not the key given')
    pub_ok(run, o, key, bs[vo:vo + 57], what)


def plain_key(ctx, run, o, v, ty, key, what):
    bs = blob_bytes(v, ctx.prog.size(ty))
    if not same_bytes(bs, key):
        raise Viol(what + ': bytes', what + ': the stored key is not the key given')


def hexed(name, n):
    """(condition: the text is 2n hex digits, the n bytes)"""
    L = pa(atom('len', name, 0, 2**40))
    full = rope_key([('s', name, 0, L)])
    fixed = rope_key([byte_atom(name, i) for i in range(2 * n)])
    for k, v in list(HEX.items()):
        if k in (full, fixed):
            ok = find_atom('hexok', v)
            if ok is not None:
                return pmul(EQ(sub(L, 2 * n)), pa(ok)), [byte_atom(v, i) for i in range(n)]
    return None, None


def ok_type(prog, ty):
    return [v['fields'][0][1] for v in prog.T[ty]['variants'] if v['name'] == 'Ok'][0]


def each(ctx, what, f):
    try:
        f()
    except Viol as v:
        ctx.fail(v.key, v.text)


# ---- text forms ------------------------------------------------------------------------------------------
TEXT = [('root_hex_to_private_key', 'hex_to_private_key', 57, plain_key),
        ('root_hex_to_signature', 'hex_to_signature', 114, plain_key),
        ('root_hex_to_message_hash', 'hex_to_message_hash', 32, plain_key),
        ('root_sk_from_str', 'SecretKey::from_str', 57, plain_key),
        ('root_vk_from_str', 'VerifyingKey::from_str', 57, plain_key),
        ('root_sgk_from_str', 'SigningKey::from_str', 57, signing_key)]
DE = [('root_sk_de', 'SecretKey::deserialize', plain_key), ('root_vk_de', 'VerifyingKey::deserialize', plain_key),
      ('root_sgk_de', 'SigningKey::deserialize', signing_key)]
SER = [('root_sk_ser', 'SecretKey::serialize', ('key',)), ('root_vk_ser', 'VerifyingKey::serialize', ('key',)),
       ('root_sgk_ser', 'SigningKey::serialize', ('secret_key', 'key'))]


def spec_text(ctx):
    for root, what, n, chk in TEXT:
        def f():
            run = ctx.run(root)
            wf, bs = hexed('arg1', n)
            if wf is None:
                raise Viol(what + ': text', '%s does not read its argument as %d hex digits' % (what, 2 * n))
            good = 0
            for o in run.outs:
                if o.kind == 'ret':
                    if not implies(o.st.conds, wf):
                        raise Viol(what + ': malformed', '%s returns a value for text that is not %d hex digits'
                                   % (what, 2 * n))
                    good += 1
                    guard(ctx, what + ': the value is the bytes the digits denote',
                          lambda: chk(ctx, run, o, o.val, run.rty, bs, what))
                elif not implies(o.st.conds, sub(1, wf)):
                    raise Viol(what + ': panic', '%s may panic (%s) on %d valid hex digits at %s'
                               % (what, o.msg, 2 * n, short_stack(o)))
            ctx.ob(what + ': returns exactly for %d hex digits' % (2 * n), good)
        each(ctx, what, f)
    for root, what, chk in DE:
        def f():
            run = ctx.run(root)
            wf, bs = hexed(natives.INPUT, 57)
            if wf is None:
                raise Viol(what + ': text', what + ' does not read the string as 114 hex digits')
            wf = bmul(bmul(pa(atom('sym', 0, 0, 1, True)), sub(1, pa(atom('sym', 1, 0, 1, True)))), wf)
            good = 0
            for o in run.outs:
                if o.kind != 'ret':
                    raise Viol(what + ': panic', '%s may panic: %s at %s' % (what, o.msg, short_stack(o)))
                v = run.value(o)
                if v[0] == 'Ok':
                    if not implies(o.st.conds, wf):
                        raise Viol(what + ': malformed', what + ' accepts text that is not 114 hex digits')
                    good += 1
                    guard(ctx, what + ': the key is the bytes the digits denote',
                          lambda: chk(ctx, run, o, v[1], ok_type(ctx.prog, run.rty), bs, what))
                elif v[0] != 'Err' or not implies(o.st.conds, sub(1, wf)):
                    raise Viol(what + ': refuses', what + ' refuses a string of 114 hex digits')
            ctx.ob(what + ': Ok exactly for 114 hex digits, Err otherwise, no panic (%d outcomes)' % len(run.outs), good)
        each(ctx, what, f)
    for root, what, path in SER:
        def f():
            run = ctx.run(root)
            ty = ctx.prog.T[ctx.prog.I[ctx.root(root)]['body']['locals'][1]]['to']
            off = offs(ctx, ty, *path)
            exp = []
            for b in inbytes('arg1', off, 57):
                exp += [pa(atom('hexc', (key(b), 1), 48, 102)), pa(atom('hexc', (key(b), 0), 48, 102))]
            for o in run.outs:
                if o.kind != 'ret':
                    raise Viol(what + ': panic', '%s may panic: %s' % (what, o.msg))
                ev = [e for e in o.st.events if e[0] == 'ser']
                if len(ev) != 1 or ev[0][1] != 'str' or len(ev) != len(o.st.events):
                    raise Viol(what + ': form', what + ' does not hand the serializer exactly one string')
                if not same_bytes(list(ev[0][2]), exp):
                    raise Viol(what + ': digits', what + ' does not write the hex digits of the key')
            ctx.ob(what + ': writes the 114 lower-case hex digits of the key', run.outs)
        each(ctx, what, f)


# ---- constructors and accessors ----------------------------------------------------------------------------
def spec_types(ctx):
    prog = ctx.prog
    L = pa(atom('len', 'arg1', 0, 2**40))
    is57 = EQ(sub(L, 57))
    key = inbytes('arg1', 0, 57)
    for root, what, chk in (('root_sk_from_bytes', 'SecretKey::from_bytes', plain_key),
                            ('root_vk_from_bytes', 'VerifyingKey::from_bytes', plain_key),
                            ('root_sgk_from_slice', 'SigningKey::from_slice', signing_key),
                            ('root_sgk_from_bytes', 'SigningKey::from_bytes', signing_key)):
        def f():
            run = ctx.run(root)
            res = prog.T[run.rty].get('name', '').endswith('Result')
            good = 0
            for o in run.outs:
                ok = o.kind == 'ret'
                v, ty = o.val, run.rty
                if res:
                    if not ok:
                        raise Viol(what + ': panic', '%s may panic: %s' % (what, o.msg))
                    v = run.value(o)
                    if v[0] == 'Err':
                        ok = False
                        e = v[1]
                        if e[0] != 'InvalidPrivKeyLengthErrro' or len(e) != 2 or not same(e[1], L):
                            raise Viol(what + ': error', what + ' reports a wrong error for a key of another length')
                    else:
                        v, ty = v[1], ok_type(prog, ty)
                if ok:
                    good += 1
                    if not implies(o.st.conds, is57):
                        raise Viol(what + ': length', what + ' accepts a slice that is not 57 bytes')
                    guard(ctx, what + ': holds exactly the key given' + (' and its public key' if chk is signing_key
                                                                        else ''),
                          lambda: chk(ctx, run, o, v, ty, key, what))
                elif not implies(o.st.conds, sub(1, is57)):
                    raise Viol(what + ': refuses', '%s refuses a 57-byte key (%s)' % (what, o.msg or 'Err'))
            ctx.ob(what + ': succeeds exactly for 57 bytes', good)
        each(ctx, what, f)

    def conv():
        run = ctx.run('root_sgk_from_secret')
        no_panic(ctx, run, 'SigningKey::from(SecretKey)')
        for o in run.outs:
            if o.kind == 'ret':
                guard(ctx, 'SigningKey::from(SecretKey) holds the key and its public key',
                      lambda: signing_key(ctx, run, o, o.val, run.rty, key, 'SigningKey::from(SecretKey)'))
    each(ctx, 'from', conv)

    def argty(root, n=1):
        return prog.T[prog.I[ctx.root(root)]['body']['locals'][n]]['to']
    for root, what, path, size in (('root_vk_as_bytes', 'VerifyingKey::as_bytes', ('key',), 57),
                                   ('root_sig_as_slice', 'Signature::as_slice', ('sig',), 171),
                                   ('root_sgk_verifying_key', 'SigningKey::verifying_key', ('verifying_key',), 57),
                                   ('root_sgk_secret_key', 'SigningKey::secret_key', ('secret_key',), 57),
                                   ('root_sgk_to_bytes', 'SigningKey::to_bytes', ('secret_key', 'key'), 57)):
        def f():
            run = ctx.run(root)
            off = offs(ctx, argty(root), *path)
            for o in run.outs:
                if o.kind != 'ret':
                    raise Viol(what + ': panic', '%s may panic: %s' % (what, o.msg))
                v = o.val
                if v.__class__ is Blob:
                    bs = blob_bytes(v, size)
                else:
                    q, n = (v.p, v.m) if v.__class__ is Fat else (v, size)
                    if n != size:
                        raise Viol(what + ': length', '%s returns %s bytes' % (what, n))
                    bs = [nb(x) for x in natives.rope_read(o.st.mem.m[q.a], q.o, size)]
                if not same_bytes(bs, inbytes('arg1', off, size)):
                    raise Viol(what + ': value', what + ' does not return the stored bytes')
            ctx.ob(what + ': the stored bytes', run.outs)
        each(ctx, what, f)
    for t, what in (('sk', 'SecretKey'), ('vk', 'VerifyingKey'), ('sgk', 'SigningKey')):
        def f():
            run = ctx.run('root_%s_clone' % t)
            size = prog.size(run.rty)
            for o in run.outs:
                if o.kind != 'ret' or not same_bytes(blob_bytes(o.val, size), inbytes('arg1', 0, size)):
                    raise Viol(what + ': clone', 'a clone of a %s differs from it' % what)
            ctx.ob(what + '::clone is identical', run.outs)
            run = ctx.run('root_%s_eq' % t)
            eq = [EQ(sub(byte_atom('arg1', i), byte_atom('arg2', i))) for i in range(size)]
            al = cprod(eq)
            for o in run.outs:
                if o.kind != 'ret':
                    raise Viol(what + ': eq panics', '== of %s may panic' % what)
                v = o.val if o.val.__class__ is int else norm(o.val, 1)
                if v != 0 and not all(implies(o.st.conds + [v], e) for e in eq):
                    raise Viol(what + ': eq', '== of %s holds for keys with different bytes' % what)
                if v != 1 and not implies(o.st.conds + [sub(1, v)], sub(1, al)):
                    raise Viol(what + ': eq', '== of %s fails for keys with equal bytes' % what)
            ctx.ob(what + ' == compares every byte', run.outs)
        each(ctx, what, f)

    def prehash():
        what = 'SigningKey::sign_prehash'
        run = ctx.run('root_sgk_sign_prehash')
        ty = argty('root_sgk_sign_prehash')
        so, vo = offs(ctx, ty, 'secret_key', 'key'), offs(ctx, ty, 'verifying_key', 'key')
        key = inbytes('arg1', so, 57)
        kinds = set()
        for o in run.outs:
            if o.kind != 'ret':
                raise Viol(what + ': panic', '%s may panic: %s at %s' % (what, o.msg, short_stack(o)))
            v = run.value(o)
            if v[0] != 'Ok':
                raise Viol(what + ': refuses', what + ' refuses a message')
            bs = blob_bytes(v[1], 171)
            b = GE(sub(key[56], 128))
            k = 1 if implies(o.st.conds, b) else 0 if implies(o.st.conds, sub(1, b)) else None
            for kind in ((0, 1) if k is None else (k,)):
                kinds.add(kind)
                if kind:
                    sec = pre = clamp(key)
                else:
                    sec, pre, _ = secret_from_seed(run, o, key, what)
                check_signature(ctx, run, o, bs[:114], sec, pre, msg(2), what)
            if not same_bytes(bs[114:], inbytes('arg1', vo, 57)):
                raise Viol(what + ': public key', what + ': the trailing 57 bytes are not the verifying key')
        ctx.ob(what + ': signature of the message followed by the verifying key', kinds == {0, 1})
    each(ctx, 'sign_prehash', prehash)


# ---- generated keys ----------------------------------------------------------------------------------------
def rng_bytes(o, what, who):
    ev = [e for e in o.st.events if e[0] == 'rng']
    out = []
    for e in ev:
        if e[1] not in who:
            raise Viol(what + ': source', '%s draws from %s' % (what, e[1]))
    return ev


def fresh_key(o, bs, what, who):
    """57 distinct output bytes of the generator, unmodified"""
    rng_bytes(o, what, who)
    seen = set()
    for i, b in enumerate(bs):
        a = linear_atom(b) if b.__class__ is Poly else None
        if a is None or KIND[a] != 'byte' or not str(DATA[a][0]).startswith('rng') or not same(b, pa(a)):
            raise Viol(what + ': byte %d' % i, '%s: byte %d of the key is not an output byte of the generator' % (what, i))
        if a in seen:
            raise Viol(what + ': byte %d' % i, '%s: byte %d of the key repeats an output byte' % (what, i))
        seen.add(a)


def spec_random(ctx):
    def f():
        what = 'ed448_generate_key'
        run = ctx.run('root_generate_key')
        no_panic(ctx, run, what)
        for o in run.outs:
            if o.kind == 'ret':
                guard(ctx, what + ': 57 distinct bytes of the thread generator',
                      lambda: fresh_key(o, blob_bytes(o.val, 57), what, ('thread_rng', 'os_rng')))
    each(ctx, 'generate', f)

    def g():
        what = 'SigningKey::random'
        run = ctx.run('root_sgk_random')
        no_panic(ctx, run, what)
        ty = run.rty
        so = offs(ctx, ty, 'secret_key', 'key')
        for o in run.outs:
            if o.kind == 'ret':
                def h():
                    bs = blob_bytes(o.val, ctx.prog.size(ty))[so:so + 57]
                    fresh_key(o, bs, what, ('caller', 'caller-u64'))
                    signing_key(ctx, run, o, o.val, ty, bs, what)
                guard(ctx, what + ': 57 distinct bytes of the given generator, with their public key', h)
    each(ctx, 'random', g)
