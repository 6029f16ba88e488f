"""Signing, key derivation and verification, as statements about the public entry points."""
from specbase import *

DOM = [83, 105, 103, 69, 100, 52, 52, 56, 0, 0]     # "SigEd448", F = 0, empty context


def clamp(bs):
    bs = list(bs)
    bs[0] = scale(F(bs[0], 2), 4)
    bs[55] = add(bs[55], sub(128, scale(GE(sub(bs[55], 128)), 128)))
    bs[56] = 0
    return bs


def msg(n):
    return [('s', 'arg%d' % n, 0, pa(atom('len', 'arg%d' % n, 0, 2**40)))]


def item_eq(x, y):
    if isinstance(x, tuple) or isinstance(y, tuple):
        return isinstance(x, tuple) and isinstance(y, tuple) and natives.rope_key([x]) == natives.rope_key([y])
    return same(nb(x), nb(y))


def hash_of(bytes_, what, n=114):
    """the hash whose first n output bytes these are -> items absorbed"""
    a0 = linear_atom(bytes_[0]) if bytes_[0].__class__ is Poly else None
    if a0 is None or KIND[a0] != 'byte' or not str(DATA[a0][0]).startswith('H'):
        raise Viol(what, what + ': not a hash output')
    h = DATA[a0][0]
    for i, b in enumerate(bytes_):
        if not same(b, byte_atom(h, i)):
            raise Viol(what, what + ': not the leading output bytes of one hash')
    return h


def shake_only(run, o, what):
    for e in o.st.events:
        if e[0] == 'hash' and 'Shake256' not in e[2]:
            raise Viol(what + ': hash', '%s: hashes with %s instead of SHAKE256' % (what, e[2]))
        if e[0] != 'hash':
            raise Viol(what + ': effect', '%s: unexpected effect %s' % (what, str(e[:2])))


def hash_by_items(run, o, pred, what):
    """names of the hashes of this outcome whose absorbed items satisfy pred"""
    return [e for e in o.st.events if e[0] == 'hash' and pred(e[3])]


def match_items(items, exp):
    """exp: list of items or ('enc', callback) for 57 bytes"""
    i = 0
    for x in exp:
        if isinstance(x, tuple) and x[0] == 'enc':
            seg = items[i:i + 57]
            if len(seg) != 57 or any(isinstance(z, tuple) for z in seg):
                return False
            if not x[1]([nb(z) for z in seg]):
                return False
            i += 57
            continue
        if i >= len(items) or not item_eq(items[i], x):
            return False
        i += 1
    return i == len(items)


def hval(h, n=114):
    """residue mod q of n little-endian output bytes of a hash"""
    return qres(rnorm(le([byte_atom(h, i) for i in range(n)]), QQ))


def secret_from_seed(run, o, key, what):
    """SHAKE256(key) -> (clamped secret bytes, prefix bytes)"""
    hs = [e for e in o.st.events if e[0] == 'hash' and match_items(list(e[3]), key)]
    names = {e[1] for e in hs}
    if len(names) != 1:
        raise Viol(what + ': seed hash', what + ': the private key is not hashed as SHAKE256(key)')
    h = names.pop()
    return clamp([byte_atom(h, i) for i in range(57)]), [byte_atom(h, 57 + i) for i in range(57)], h


def check_signature(ctx, run, o, bs, secret, prefix, m, what):
    """the 114 bytes are R || S of RFC 8032 for this secret scalar string and nonce prefix"""
    shake_only(run, o, what)
    s = qres(rnorm(le(secret), QQ))
    f = enc_form(bs[:57], what + ' R')
    # nonce
    exp = DOM + list(prefix) + m
    hs = {e[1] for e in o.st.events if e[0] == 'hash' and e[4] == 0 and match_items(list(e[3]), exp)}
    if len(hs) != 1:
        raise Viol(what + ': nonce', what + ': no hash over dom4 || prefix || message; nonce hashes: '
                   + '; '.join(show_items(e[3]) for e in o.st.events if e[0] == 'hash'))
    r = hval(hs.pop())
    if not form_eq(f, {'B': rmul(r, INV4, QQ)}):
        raise Viol(what + ': R', '%s: R is %s, expected [r]B' % (what, form_text(f)))
    A = {'B': rmul(s, INV4, QQ)}

    def is_A(seg):
        try:
            return form_eq(enc_form(seg, 'A'), A)
        except Viol:
            return False
    exp = DOM + list(bs[:57]) + [('enc', is_A)] + m
    hs = {e[1] for e in o.st.events if e[0] == 'hash' and e[4] == 0 and match_items(list(e[3]), exp)}
    if len(hs) != 1:
        raise Viol(what + ': challenge', what + ': no hash over dom4 || R || A || message; hashes: '
                   + '; '.join(show_items(e[3]) for e in o.st.events if e[0] == 'hash'))
    k = hval(hs.pop())
    S = scalar_bytes(bs[57:], what + ' S')
    if not qeq(S, rnorm(add(r, rmul(k, s, QQ)), QQ)):
        raise Viol(what + ': S', '%s: S is %s, expected r + k*s mod q' % (what, show(S, 1, 6)[:200]))


def show_items(items):
    out = []
    for it in items:
        if isinstance(it, tuple):
            out.append('%s[..]' % it[1])
        elif it.__class__ is int:
            out.append('%02x' % it)
        else:
            a = linear_atom(it)
            out.append(('%s.%s' % DATA[a][:2]) if a is not None and KIND[a] == 'byte' else '*')
    s = ' '.join(out)
    return s if len(s) < 160 else s[:110] + ' ... ' + s[-40:]


def only_branches(ctx, name, o, allowed, what):
    for c in o.st.conds:
        for a in atoms_of(c):
            if not allowed(a):
                raise Viol(what + ': branch', '%s: outcome depends on %s' % (what, show(pa(a), 1, 4)[:120]))


def kind_bit(o, name='arg1'):
    """which key kind this outcome is for: decided by bit 7 of byte 56"""
    b = GE(sub(byte_atom(name, 56), 128))
    if implies(o.st.conds, b):
        return 1
    if implies(o.st.conds, sub(1, b)):
        return 0
    return None


def no_panic(ctx, run, what):
    bad = False
    for o in run.outs:
        if o.kind != 'ret':
            bad = True
            ctx.fail('%s: panic %s' % (what, short_stack(o)), '%s may panic (%s) at %s' % (what, o.msg, short_stack(o)))
    if not bad:
        ctx.ob('%s: every outcome returns (%d outcomes)' % (what, len(run.outs)), True)
    return not bad


def short_stack(o):
    s = [str(x) for x in (o.stack or [])]
    loc = [x for x in s if 'libgoldilocks' in x]
    return ' > '.join(x.split('::')[-1] for x in loc[-3:]) or (s[-1] if s else '?')


def guard(ctx, what, f):
    try:
        f()
        ctx.ob(what, True)
        return True
    except Viol as v:
        ctx.fail(v.key, v.text)
        return False


def outs_by_kind(ctx, run, what):
    """check the outcomes are partitioned by the key-kind bit alone; -> {0: [...], 1: [...]}"""
    d = {0: [], 1: []}
    for o in run.outs:
        if o.kind != 'ret':
            ctx.fail('%s: panic' % what, '%s may panic: %s at %s' % (what, o.msg, short_stack(o)))
            continue
        k = kind_bit(o)
        if k is None:
            d[0].append(o)
            d[1].append(o)
        else:
            d[k].append(o)
    for k in (0, 1):
        ctx.ob('%s: an outcome for key kind %d exists' % (what, k), d[k])
    return d


def spec_sign(ctx, names=None):
    key = inbytes('arg1', 0, 57)
    todo = names or ['root_sign', 'root_sign_by_private', 'root_sign_with_secret_and_nonce']
    if 'root_sign' in todo:
        run = ctx.run('root_sign')
        d = outs_by_kind(ctx, run, 'ed448_sign')
        for o in d[0]:
            def f(o=o):
                sec, pre, h = secret_from_seed(run, o, key, 'ed448_sign(private key)')
                check_signature(ctx, run, o, blob_bytes(o.val, 114), sec, pre, msg(2), 'ed448_sign(private key)')
            guard(ctx, 'ed448_sign on a private key is RFC 8032 signing', f)
        for o in d[1]:
            def f(o=o):
                c = clamp(key)
                check_signature(ctx, run, o, blob_bytes(o.val, 114), c, c, msg(2), 'ed448_sign(secret key)')
            guard(ctx, 'ed448_sign on an expanded secret signs with the clamped secret', f)
    if 'root_sign_by_private' in todo:
        run = ctx.run('root_sign_by_private')
        no_panic(ctx, run, 'sign_by_private')
        for o in run.outs:
            if o.kind == 'ret':
                def f(o=o):
                    sec, pre, h = secret_from_seed(run, o, key, 'sign_by_private')
                    check_signature(ctx, run, o, blob_bytes(o.val, 114), sec, pre, msg(2), 'sign_by_private')
                guard(ctx, 'sign_by_private is RFC 8032 signing', f)
    if 'root_sign_with_secret_and_nonce' in todo:
        run = ctx.run('root_sign_with_secret_and_nonce')
        no_panic(ctx, run, 'sign_with_secret_and_nonce')
        for o in run.outs:
            if o.kind == 'ret':
                def f(o=o):
                    check_signature(ctx, run, o, blob_bytes(o.val, 114), clamp(key), inbytes('arg2', 0, 57), msg(3),
                                    'sign_with_secret_and_nonce')
                guard(ctx, 'sign_with_secret_and_nonce is RFC 8032 signing with the given prefix', f)


def is_public_of(bs, secret, what):
    s = qres(rnorm(le(secret), QQ))
    f = enc_form(bs, what)
    if not form_eq(f, {'B': rmul(s, INV4, QQ)}):
        raise Viol(what + ': point', '%s: encodes %s, expected [s]B of the clamped secret' % (what, form_text(f)))


def spec_derive(ctx):
    key = inbytes('arg1', 0, 57)
    run = ctx.run('root_secret_to_public')
    no_panic(ctx, run, 'secret_to_public')
    for o in run.outs:
        if o.kind == 'ret':
            guard(ctx, 'secret_to_public(s) encodes [clamp(s)]B',
                  lambda o=o: is_public_of(blob_bytes(o.val, 57), clamp(key), 'secret_to_public'))
    run = ctx.run('root_private_to_public')
    no_panic(ctx, run, 'private_to_public')
    for o in run.outs:
        if o.kind == 'ret':
            def f(o=o):
                sec, pre, h = secret_from_seed(run, o, key, 'private_to_public')
                is_public_of(blob_bytes(o.val, 57), sec, 'private_to_public')
            guard(ctx, 'private_to_public(k) encodes [clamp(SHAKE256(k))]B', f)
    run = ctx.run('root_private_to_secret')
    no_panic(ctx, run, 'private_to_secret')
    for o in run.outs:
        if o.kind == 'ret':
            def f(o=o):
                sec, pre, h = secret_from_seed(run, o, key, 'private_to_secret')
                exp = [byte_atom(h, i) for i in range(57)]
                exp[56] = add(exp[56], sub(128, scale(GE(sub(exp[56], 128)), 128)))
                if not same_bytes(blob_bytes(o.val, 57), exp):
                    raise Viol('private_to_secret', 'private_to_secret is not SHAKE256(k) with the key-kind bit set')
            guard(ctx, 'private_to_secret(k) = SHAKE256(k, 57) with bit 7 of byte 56 set', f)
    run = ctx.run('root_derive_public')
    d = outs_by_kind(ctx, run, 'ed448_derive_public')
    for o in d[0]:
        def f(o=o):
            sec, pre, h = secret_from_seed(run, o, key, 'ed448_derive_public')
            is_public_of(blob_bytes(o.val, 57), sec, 'ed448_derive_public(private key)')
        guard(ctx, 'ed448_derive_public on a private key', f)
    for o in d[1]:
        guard(ctx, 'ed448_derive_public on an expanded secret',
              lambda o=o: is_public_of(blob_bytes(o.val, 57), clamp(key), 'ed448_derive_public(secret key)'))
