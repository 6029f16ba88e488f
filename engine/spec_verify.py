"""Verification: the outcome of ed448_verify / ed448_verify_with_error for every input."""
from spec_sig import *


def dec_pred(name, off):
    """conditions under which 57 bytes are the canonical encoding of a curve point"""
    bs = inbytes(name, off, 57)
    N = le(bs[:56])
    sign = GE(sub(bs[56], 128))
    top = EQ(sub(bs[56], scale(sign, 128)))
    rng = sub(1, GE(sub(N, PP)))
    y = yres(N)
    x, u, v = PT.dec_x(y)
    on = PT.fz_atom(rnorm(sub(rmul(v, rmul(x, x, PP), PP), u), PP))
    x0 = sub(1, bmul(sign, PT.fz_atom(u)))
    return bmul(bmul(top, rng), bmul(on, x0)), (top, rng, on, x0)


def yres(N):
    return fold.name_res('F', rnorm(N, PP), True)


def dec_point(name, off, sign=None):
    """the decoded point, projective, under the isogeny psi(x, y) = (-2xy/(y^2-x^2), (x^2+y^2)/(2-x^2-y^2));
    psi is fixed by psi(B_ed) = B_t, the base point of the tables (checked numerically in base_check)"""
    bs = inbytes(name, off, 57)
    y = yres(le(bs[:56]))
    if sign is None:
        sign = sign_bit(name, off)
    x0, u, v = PT.dec_x(y)
    A = new_arr('F', x0, (0,) * 16, 0, 0, True)
    lb = bv(low_bit(A), False)
    b = sub(add(lb, sign), scale(pmul(lb, sign), 2))
    x = rnorm(pmul(x0, sub(1, scale(b, 2))), PP)
    R, rm = PT.R, PT.rm
    x2, y2 = rm(x, x), rm(y, y)
    s, t = R(add(x2, y2)), R(sub(y2, x2))
    a, m = R(sub(2, s)), R(scale(rm(x, y), -2))
    return rm(a, m), rm(t, s), rm(t, a)


def sign_bit(name, off):
    return GE(sub(inbytes(name, off, 57)[56], 128))


_gm = {}


def gen_matches(g, name, off, conds=None):
    """is g the point of the encoding - for both sign bits, or for the one the path has fixed?"""
    k = (g, name, off)
    if k not in _gm:
        X, Y, Z, T = GENS[g]['res']
        R, rm = PT.R, PT.rm
        _gm[k] = None
        for sg in (None, 0, 1):
            EX, EY, EZ = dec_point(name, off, sg)
            if R(sub(rm(X, EZ), rm(EX, Z))) == 0 and R(sub(rm(Y, EZ), rm(EY, Z))) == 0:
                _gm[k] = sign_bit(name, off) if sg == 1 else sub(1, sign_bit(name, off)) if sg == 0 else 1
                break
    r = _gm[k]
    if r is None or r == 1:
        return r == 1
    return conds is not None and implies(conds, r)


class VerifySpec:
    def __init__(self, ctx, run, what):
        self.ctx, self.run, self.what = ctx, run, what
        self.lenpk = EQ(sub(pa(atom('len', 'arg1', 0, 2**40)), 57))
        self.lensig = EQ(sub(pa(atom('len', 'arg2', 0, 2**40)), 114))
        self.pk, self.pkparts = dec_pred('arg1', 0)
        self.R, self.Rparts = dec_pred('arg2', 0)
        self.zpk = EQ(le(inbytes('arg1', 0, 57)))
        self.zsig = EQ(le(inbytes('arg2', 0, 114)))
        self.srange = sub(1, GE(sub(le(inbytes('arg2', 57, 57)), QQ)))
        self.eqn = pa(atom('EQN', 'spec', 0, 1, True))
        self.peq = {}
        self.why = {}

    def fix(self, o):
        """rewrite the group-equation atoms the code computes into the expected one"""
        def f(c):
            if c.__class__ is int:
                return c
            mp = {}
            for a in atoms_of(c):
                if KIND[a] == 'PEQ' and self.is_eqn(o, a):
                    mp[a] = self.eqn
            return subst(c, mp) if mp else c
        return f

    def is_eqn(self, o, a):
        k = (a, id(o))
        if k in self.peq:
            return self.peq[k]
        r = False
        try:
            self.check_eqn(o, a)
            r = True
        except Viol as v:
            self.why[v.key] = v.text
        self.peq[k] = r
        return r

    def check_eqn(self, o, a):
        what = self.what
        fs = [FORMS[k] for k in DATA[a]]
        if len(fs) == 1:
            raise Viol(what + ': equation', what + ': the group equation compares a point with itself')
        h = PT.fadd(fs[0], fs[1], -1)
        gr = [g for g in h if GENS.get(g, {}).get('kind') == 'decoded']
        gR = [g for g in gr if gen_matches(g, 'arg2', 0, o.st.conds)]
        gA = [g for g in gr if gen_matches(g, 'arg1', 0, o.st.conds)]
        if len(gR) != 1 or len(gA) != 1 or set(h) - {'B', 'T2', gR[0], gA[0]}:
            raise Viol(what + ': equation', '%s: the verdict does not compare points decoded from the public key and R '
                       'with multiples of B (form: %s)' % (what, form_text(h)))
        exp = DOM + inbytes('arg2', 0, 57) + inbytes('arg1', 0, 57) + msg(3)
        exp2 = DOM + inbytes('arg2', 0, 57) + [('s', 'arg1', 0, pa(atom('len', 'arg1', 0, 2**40)))] + msg(3)
        hs = {e[1] for e in o.st.events if e[0] == 'hash' and e[4] == 0 and
              (match_items(list(e[3]), exp) or match_items(list(e[3]), exp2))}
        if len(hs) != 1:
            raise Viol(what + ': challenge', what + ': no hash over dom4 || R || A || message as received; hashes: '
                       + '; '.join(show_items(e[3]) for e in o.st.events if e[0] == 'hash'))
        k = hval(hs.pop())
        S = qres(rnorm(le(inbytes('arg2', 57, 57)), QQ))
        e = {gR[0]: 1, 'B': rnorm(neg(S), QQ), gA[0]: k}
        if not (form_eq(h, e) or form_eq(h, {g: rnorm(scale(c, -1), QQ) if c.__class__ is Poly else -c
                                            for g, c in e.items()})):
            raise Viol(what + ': equation', '%s: the compared form is %s, expected R - [S]B + [k]A' % (what, form_text(h)))

    def valid(self):
        r = bmul(self.lenpk, self.lensig)
        r = bmul(r, bmul(self.pk, self.R))
        r = bmul(r, bmul(self.srange, self.eqn))
        return bmul(r, bmul(sub(1, self.zpk), sub(1, self.zsig)))

    def verdict(self, o):
        """-> 'accept', 'reject', or an error name"""
        v = self.run.value(o)
        if v[0] == 'Ok':
            if v[1] == ():
                return 'accept'
            b = v[1]
            if b.__class__ is int:
                return 'accept' if b else 'reject'
            return ('bool', b)
        if v[0] == 'Err':
            return v[1][0] if isinstance(v[1], tuple) else str(v[1])
        return '?'

    def cases(self):
        for o in self.run.outs:
            if o.kind != 'ret':
                continue
            v = self.verdict(o)
            if isinstance(v, tuple):
                yield o, o.st.conds + [v[1]], 'accept'
                yield o, o.st.conds + [sub(1, v[1])], 'reject'
            else:
                yield o, o.st.conds, v


ENTRY = {'root_verify': 'ed448_verify', 'root_verify_with_error': 'ed448_verify_with_error'}


def each(ctx, roots):
    for r in roots:
        run = ctx.run(r)
        yield VerifySpec(ctx, run, ENTRY[r]), run, ENTRY[r]


ROOTS = ('root_verify', 'root_verify_with_error')


def explain(sp, o, conds):
    bits = []
    parts = [('pk length', sp.lenpk), ('sig length', sp.lensig)] + \
        [('pk ' + n, p) for n, p in zip(('unused bits', 'y < p', 'on curve', 'sign of x=0'), sp.pkparts)] + \
        [('R ' + n, p) for n, p in zip(('unused bits', 'y < p', 'on curve', 'sign of x=0'), sp.Rparts)] + \
        [('S < q', sp.srange), ('group equation', sp.eqn), ('pk not zero', sub(1, sp.zpk)), ('sig not zero', sub(1, sp.zsig))]
    fx = sp.fix(o)
    for n, p in parts:
        if implies(conds, p, fx):
            bits.append(n)
        elif implies(conds, sub(1, p), fx):
            bits.append('not(%s)' % n)
        else:
            bits.append('?' + n)
    return ', '.join(bits)


def spec_verdict(ctx, roots=ROOTS):
    """accept <=> valid"""
    for sp, run, what in each(ctx, roots):
        no_panic(ctx, run, what)
        V = sp.valid()
        acc = 0
        for o, conds, v in sp.cases():
            fx = sp.fix(o)
            if v == 'accept':
                acc += 1
                ok = implies(conds, V, fx)
                ctx.ob('%s accepts only valid signatures' % what, ok,
                       'an accepting path does not establish: %s %s' % (missing(sp, o, conds), '; '.join(sp.why.values())[:400]),
                       key='%s accepts too much: %s' % (what, missing(sp, o, conds)))
            else:
                ok = implies(conds, sub(1, V), fx)
                ctx.ob('%s rejects only invalid signatures' % what, ok,
                       'a rejecting path (%s) is reachable for a valid signature: %s %s'
                       % (v, explain(sp, o, conds), '; '.join(sp.why.values())[:400]), key='%s rejects valid input with %s' % (what, v))
        ctx.ob('%s: an accepting outcome exists' % what, acc > 0, 'no input is accepted')


def missing(sp, o, conds):
    e = explain(sp, o, conds).split(', ')
    return ', '.join(x.lstrip('?') for x in e if x.startswith('?') or x.startswith('not('))


def spec_errors(ctx, roots=ROOTS):
    for sp, run, what in each(ctx, roots):
        no_panic(ctx, run, what)
        wf = bmul(bmul(sp.lenpk, sp.lensig), bmul(sp.pk, sp.R))
        zero = sub(1, bmul(sub(1, bmul(sp.lenpk, sp.zpk)), sub(1, bmul(sp.lensig, sp.zsig))))
        bad = sub(1, bmul(sub(1, zero), sub(1, bmul(wf, sub(1, bmul(sp.srange, sp.eqn))))))
        lone = bmul(wf, sub(1, bmul(sp.srange, sp.eqn)))
        E = {'InvalidPubkeyLengthError': sub(1, sp.lenpk),
             'DecodePubkeyError': bmul(sp.lenpk, sub(1, sp.pk)),
             'InvalidSignatureLengthError': sub(1, sp.lensig),
             'DecodeSignatureError': bmul(sp.lensig, sub(1, sp.R)),
             'InvalidSignatureError': bad if what.endswith('error') else zero,
             'reject': lone,
             'accept': sp.valid()}
        for o, conds, v in sp.cases():
            fx = sp.fix(o)
            if v not in E:
                ctx.fail('%s: %s' % (what, v), '%s can return %s, which is not a documented outcome' % (what, v))
                continue
            ctx.ob('%s: %s only for its cause' % (what, v), implies(conds, E[v], fx),
                   '%s is returned on a path where it does not apply: %s %s' % (v, explain(sp, o, conds), '; '.join(sp.why.values())[:300]),
                   key='%s: %s without its cause' % (what, v))


def spec_decode(ctx):
    """strict decoding of the public key and of R, seen through ed448_verify"""
    for sp, run, what in each(ctx, ('root_verify',)):
        for o, conds, v in sp.cases():
            fx = sp.fix(o)
            if v in ('accept', 'reject'):
                # reaching a verdict means both encodings were found valid
                for nm, P, L in (('public key', sp.pk, sp.lenpk), ('R', sp.R, sp.lensig)):
                    ok = implies(conds, bmul(P, L), fx)
                    ctx.ob('%s reaches a verdict only for a canonical %s encoding' % (what, nm), ok,
                           'verdict without: %s' % missing(sp, o, conds), key='%s: lax %s' % (what, nm))
            if v == 'DecodePubkeyError':
                ctx.ob('%s: no valid public key is refused' % what, implies(conds, sub(1, sp.pk), fx), explain(sp, o, conds),
                       key='valid public key refused')
            if v == 'DecodeSignatureError':
                ctx.ob('%s: no valid R is refused' % what, implies(conds, sub(1, sp.R), fx), explain(sp, o, conds),
                       key='valid R refused')
        seen = {g for g in GENS if GENS[g].get('kind') == 'decoded'}
        uses = {}
        for o in run.outs:
            gs = set()
            for c in o.st.conds + [v for v in (sp.verdict(o)[1:] if o.kind == 'ret' and isinstance(sp.verdict(o), tuple) else ())]:
                for a in (atoms_of(c) if c.__class__ is Poly else ()):
                    if KIND[a] == 'PEQ':
                        gs |= {g for k in DATA[a] for g in FORMS[k]}
            for g in gs & seen:
                uses.setdefault(g, []).append(o.st.conds)
        for g in seen:
            ok = any(gen_matches(g, n, 0) or g in uses and all(gen_matches(g, n, 0, cs) for cs in uses[g])
                     for n in ('arg1', 'arg2'))
            ok = ok or g not in uses        # decoded on the way to a refusal; the refusals are decided above
            ctx.ob('decoded point is the point of the encoding', ok,
                   'a decoded point is neither that of the public key nor that of R')
        ctx.ob('both points are decoded', len(seen) >= 2, 'decoded %d' % len(seen))
