"""Common vocabulary of the specifications: running a root, reading values, semantic comparison."""
import sys
import time
from poly import *
from domain import *
import domain as D_
from mem import *
from interp import *
import natives
import fold
import points as PT
from points import GENS, FORMS
from code_ import ip_get_discr

QQ = MOD['S']
PP = MOD['F']


class Viol(Exception):
    """a construct that breaks the rule: key (stable id), text"""

    def __init__(self, key, text):
        Exception.__init__(self, text)
        self.key, self.text = key, text


class Ctx:
    def __init__(self, prog, tier='quick'):
        self.prog, self.tier = prog, tier
        self.obligations = []      # (name, ok, detail)
        self.viol = []             # (key, text)
        self.visited = set()
        self.branches = {}
        self.opaque = set()
        self._runs = {}
        self.notes = []

    def ob(self, name, ok, detail='', key=None):
        self.obligations.append((name, bool(ok)))
        if not ok:
            self.viol.append((key or name, '%s: %s' % (name, detail)))
        return ok

    def fail(self, key, text):
        self.obligations.append((key, False))
        self.viol.append((key, text))

    def root(self, name):
        i = self.prog.roots.get(name)
        if i is None:
            raise Viol('missing root ' + name, 'entry point %s is not in the program any more' % name)
        return i

    def has(self, name):
        return name in self.prog.roots

    def run(self, name):
        if name not in self._runs:
            self._runs[name] = Run(self, self.root(name), name)
        return self._runs[name]


def sym_args(ip, prog, st, inst):
    I = prog.I[inst]
    args = []
    for i in range(1, I['body']['argc'] + 1):
        ty = I['body']['locals'][i]
        t = prog.T[ty]
        nm = 'arg%d' % i
        c = prog.cls(ty)
        if t['k'] in ('ref', 'ptr'):
            if c == 'f':
                ln = pa(atom('len', nm, 0, 2**40))
                args.append(Fat(Ptr(st.mem.new(ln, nm, sym=nm), 0), ln))
            else:
                args.append(Ptr(st.mem.new(prog.size(t['to']), nm, sym=nm), 0))
        elif c == 'm':
            al = st.mem.new(prog.size(ty), nm, sym=nm)
            args.append(ip.load(st, Ptr(al, 0), ty))
        elif c == 'z':
            args.append(Blob(0, []))
        else:
            raise Unsupported('argument %d of %s' % (i, prog.name[inst]))
    return args


class Run:
    """all outcomes of one entry point for unconstrained inputs"""

    def __init__(self, ctx, inst, name, setup=None):
        self.ctx, self.name = ctx, name
        prog = ctx.prog
        ip = Interp(prog, natives.resolver)
        PT.install(ip)
        self.ip = ip
        st = State()
        self.args = (setup or sym_args)(ip, prog, st, inst)
        ip.push(st, inst, list(self.args))
        t = time.time()
        try:
            outs = ip.run(st)
        except Unsupported as e:
            s = ip.cur_stack()
            if e.__class__ is OutOfBounds:
                raise Viol('%s: out of bounds' % name, '%s: %s, in %s' % (
                    name, str(e)[:300], ' > '.join(x.split('::')[-1] for x in s[-6:])))
            raise Viol('%s: not analysable' % name, '%s: the analysis cannot follow the code any more (%s) in %s'
                       % (name, str(e)[:300], ' > '.join(x.split('::')[-1] for x in s[-6:])))
        self.outs = outs + ip.pending
        self.wall = time.time() - t
        self.rty = prog.I[inst]['body']['locals'][0]
        ctx.visited |= ip.visited
        ctx.opaque |= ip.opaque_calls
        ctx.branches[name] = list(ip.branches)

    def value(self, o):
        return decode_val(self.ip, o.st, self.rty, o.val)

    def memory(self, o, argno):
        """bytes behind reference argument argno (1-based) at the end"""
        a = self.args[argno - 1]
        return a


def decode_val(ip, st, ty, v):
    """structured view of a returned value: ('Ok', x), ints/Polys, Blob for byte arrays"""
    p = ip.p
    t = p.T[ty]
    c = p.cls(ty)
    if c == 'z':
        return ()
    if t['k'] == 'adt' and t['adt'] == 'enum':
        k = st.mem.new(p.size(ty), 'ret')
        ip.store(st, Ptr(k, 0), ty, v)
        d = ip_get_discr(ip, st, Ptr(k, 0), ty)
        if d.__class__ is not int:
            return ('?', d)
        for n, var in enumerate(t['variants']):
            if int(var['discr']) == d:
                out = []
                lay = t['layout']['variants']
                for j, (fn, ft) in enumerate(var['fields']):
                    off = lay[4][n][j] if lay[0] == 'multi' else p.fields(ty)[j][1]
                    if p.cls(ft) == 'z':
                        out.append(())
                    else:
                        out.append(decode_val(ip, st, ft, ip.load(st, Ptr(k, off), ft)))
                return (var['name'],) + tuple(out)
        return ('?', d)
    return v


def nb(v):
    """a byte value in normal form"""
    return norm(v, 8) if v.__class__ is Poly else v & 255


def blob_bytes(v, n):
    """byte values of a returned byte array"""
    if v.__class__ is not Blob or v.size != n:
        raise Viol('shape', 'expected %d bytes' % n)
    al = Alloc(n, 'tmp')
    for o, s, x in v.cells:
        al.cells[o] = (s, x)
    out = []
    for i in range(n):
        x = load_cell(al, i, 1)
        if not isinstance(x, (int, Poly)):
            raise Viol('shape', 'byte %d is not defined' % i)
        out.append(nb(x))
    return out


def le(vals):
    """little-endian integer of normalised bytes"""
    V = 0
    for i, v in enumerate(vals):
        V = add(V, scale(v, 256**i) if v.__class__ is Poly else v * 256**i)
    return V


def le_c(vals):
    V = le(vals)
    return complete(raw(V)) if V.__class__ is Poly else V


def inb(name, i):
    return byte_atom(name, i)


def inbytes(name, off, n):
    return [byte_atom(name, off + i) for i in range(n)]


def same(a, b):
    """equality of two values as polynomials over the inputs"""
    if a.__class__ is int and b.__class__ is int:
        return a == b
    d = sub(a, b)
    if d.__class__ is int:
        return d == 0
    d = complete(raw(d))
    return d.__class__ is int and d == 0


def same_bytes(a, b):
    return len(a) == len(b) and all(x.__class__ is not tuple and y.__class__ is not tuple and same(nb(x), nb(y))
                                    for x, y in zip(a, b))


# ---- residues mod q -----------------------------------------------------------------------------
def qres(x):
    """integer polynomial -> residue mod q over input bytes"""
    if x.__class__ is int:
        return x % QQ
    if any(KIND[a] in ('BV', 'F', 'M') or (KIND[a] == 'GE' and fold.limby(a)) for a in atoms_of(x)):
        y = complete(raw(x))
        if y.__class__ is not int and any(fold.limby(a) for a in atoms_of(y) if KIND[a] != 'VAL'):
            y = complete_mod(raw(x))
        if y.__class__ is int or not any(fold.limby(a) for a in atoms_of(y) if KIND[a] != 'VAL'):
            x = y
    if x.__class__ is int:
        return x % QQ
    for _ in range(20):
        mp = {}
        for a in atoms_of(x):
            if KIND[a] == 'VAL' and VALOF[a].kind == 'S':
                mp[a] = VALOF[a].res
        x = fold.unname('S', rnorm(x, QQ))
        if x.__class__ is int:
            return x % QQ
        if not mp:
            return x
        x = rnorm(subst(x, mp, lambda u, v: rmul(u, v, QQ)), QQ)
        if x.__class__ is int:
            return x % QQ
    return x


def complete_mod(x):
    """like complete, but modulo q and for limb sums multiplied by something"""
    for _ in range(4):
        if x.__class__ is int:
            return x
        groups = {}
        for m, c in x.d.items():
            ls = [(a, e) for a, e in MONO[m] if a in LIMB]
            if not ls or ls[0][1] != 1:
                continue
            A, i = LIMB[ls[0][0]]
            rest = mono(tuple(p for p in MONO[m] if p[0] != ls[0][0]))
            groups.setdefault((rest, id(A)), (A, {}))[1][i] = (m, c)
        d, hit = dict(x.d), False
        for (rest, _i), (A, cs) in groups.items():
            n, r = N[A.kind], RAD[A.kind]
            if len(cs) != n or any((cs[j][1] - (cs[0][1] << (r * j))) % QQ for j in range(n)):
                continue
            for j in range(n):
                del d[cs[j][0]]
            v = mmul(rest, amono(A.val))
            if v.__class__ is int:
                d[v] = d.get(v, 0) + cs[0][1]
                hit = True
            else:
                return x
        x = rnorm(mk(d), QQ)
        if not hit:
            break
    return x


def qeq(a, b):
    d = qres(rnorm(sub(qres(a), qres(b)), QQ))
    return d.__class__ is int and d % QQ == 0


def qmul(a, b):
    return rmul(qres(a), qres(b), QQ)


INV4 = pow(4, -1, QQ)


def form_eq(f, exp):
    """linear forms over the generators, coefficients mod q; the 2-torsion point T2 is invisible"""
    for g in set(f) | set(exp):
        if g == 'T2':
            continue
        if not qeq(f.get(g, 0), exp.get(g, 0)):
            return False
    return True


def form_text(f):
    return ' + '.join('(%s)*%s' % (show(qres(c), 1, 4)[:80] if qres(c).__class__ is Poly else qres(c), g)
                      for g, c in f.items() if g != 'T2')


# ---- recognisers ---------------------------------------------------------------------------------
def low_bit(A):
    l0 = pa(A.limbs[0])
    return bv_digit(l0)


def bv_digit(x):
    return sub(x, scale(F(x, 1), 2))


def enc_form(bs, what):
    """57 bytes that are the RFC 8032 encoding of a point -> its form"""
    V = le_c(bs[:56])
    if V.__class__ is int and V == 1 and same(bs[56], 0):
        return {}
    a = linear_atom(V) if V.__class__ is Poly else None
    if a is None or V.d.get(amono(a)) != 1 or KIND[a] != 'VAL' or not VALOF[a].canon or VALOF[a].kind != 'F':
        raise Viol(what + ': y', '%s: bytes 0..55 are not the canonical little-endian y-coordinate of a point' % what)
    r = VALOF[a].res
    if r.__class__ is int and r == 1:
        X = new_arr('F', 0, (0,) * 16, 0, 0, True)
        if same(bs[56], 0) or same(bs[56], scale(low_bit(X), 128)):
            return {}       # the identity
    y = linear_atom(r) if r.__class__ is Poly else None
    if y is None or r.d.get(amono(y)) != 1 or KIND[y] != 'EY':
        raise Viol(what + ': y', '%s: bytes 0..55 hold %s, not the y-coordinate (y^2-x^2)/(2-y^2+x^2) of the computed '
                   'point' % (what, show(r, 1, 3)[:120]))
    fk = DATA[y]
    X = new_arr('F', pa(atom('EX', fk, None, None)), (0,) * 16, 0, 0, True)
    if not same(bs[56], scale(low_bit(X), 128)):
        raise Viol(what + ': sign', '%s: byte 56 is not the sign bit of the x-coordinate of the same point' % what)
    return FORMS[fk]


def scalar_bytes(bs, what):
    """57 bytes that are the canonical little-endian form of a reduced scalar -> residue mod q"""
    V = le_c(bs)
    if V.__class__ is int:
        return V
    a = linear_atom(V)
    if a is None or V.d.get(amono(a)) != 1 or KIND[a] != 'VAL' or VALOF[a].kind != 'S' or not VALOF[a].canon:
        raise Viol(what + ': canonical', '%s: not the canonical encoding of a scalar below the group order' % what)
    return qres(VALOF[a].res)


# ---- boolean conditions ----------------------------------------------------------------------------
def cprod(conds):
    r = 1
    for c in conds:
        r = pmul(r, c) if r.__class__ is Poly or c.__class__ is Poly else r * c
    return r


def bmul(a, b):
    if a.__class__ is int:
        return b if a == 1 else 0
    if b.__class__ is int:
        return a if b == 1 else 0
    return pmul(a, b)


def expand(c):
    """EQ(sum of nonnegative input bytes) = product of EQ(byte)"""
    if c.__class__ is int:
        return c
    mp = {}
    for a in atoms_of(c):
        if KIND[a] == 'EQ':
            D = fpoly(DATA[a])
            if const_part(D) == 0 and (all(x > 0 for x in D.d.values()) or all(x < 0 for x in D.d.values())) and \
                    all(KIND[z] == 'byte' for z in atoms_of(D)) and len(D.d) > 1:
                r = 1
                for z in sorted(atoms_of(D)):
                    r = bmul(r, EQ(pa(z)))
                mp[a] = r
            elif const_part(D) == 0 and len(D.d) > 2:
                r = wordeq(D)
                if r is not None:
                    mp[a] = r
    return subst(c, mp) if mp else c


def wordeq(D):
    """sum of c_k*(a_k - b_k) over byte pairs whose weights grow by 256 or more: 0 iff every a_k = b_k"""
    by = {}
    for m, c in D.d.items():
        t = MONO[m]
        if len(t) != 1 or t[0][1] != 1 or KIND[t[0][0]] != 'byte':
            return None
        by.setdefault(abs(c), []).append((c, t[0][0]))
    r, low = 1, 0
    for c in sorted(by):
        g = by[c]
        if len(g) != 2 or g[0][0] + g[1][0] or c <= low:
            return None
        low += 255 * c
        r = bmul(r, EQ(sub(pa(g[0][1]), pa(g[1][1]))))
    return r


def implies(conds, E, fix=None):
    """do the path conditions entail E (a 0/1 polynomial)?"""
    conds = [expand(fix(c) if fix else c) for c in conds]
    E = expand(E)
    known = {}
    for _ in range(4):
        for c in conds:
            if c.__class__ is Poly:
                for a, v in forced(c, known).items():
                    known[a] = v
    for a in [a for a, v in known.items() if v.__class__ is int and v == 1 and KIND[a] in ('GE', 'EQ')]:
        for b in (atoms_of(E) if E.__class__ is Poly else ()):
            if b not in known and KIND[b] in ('GE', 'EQ'):
                r = related(a, b)
                if r:
                    known[b] = 1 if r > 0 else 0

    def app(x):
        return setall(x, known)
    cs = [app(c) for c in conds]
    if any(c.__class__ is int and c == 0 for c in cs):
        return True
    r = sub(1, app(E))
    for c in sorted((c for c in cs if c.__class__ is Poly), key=lambda z: len(z.d)):
        if r.__class__ is int and r == 0:
            return True
        r = bmul(r, c)
    return r.__class__ is int and r == 0


def setall(x, known):
    if x.__class__ is int:
        return x
    for a in list(atoms_of(x)):
        if a in known:
            x = set_atom(x, a, known[a])
            if x.__class__ is int:
                return x
    return x


def forced(c, known):
    """atoms fixed by c == 1"""
    c = setall(c, known)
    out = {}
    if c.__class__ is int:
        return out
    for a in atoms_of(c):
        if BOOL[a]:
            x1, x0 = set_atom(c, a, 1), set_atom(c, a, 0)
            if x1.__class__ is int and x1 == 0:
                out[a] = 0
            elif x0.__class__ is int and x0 == 0:
                out[a] = 1
    return out


def summary(ctx):
    """measured coverage of one check run"""
    p = ctx.prog
    names = sorted({p.name[i] for i in ctx.visited})
    crate = [n for n in names if 'libgoldilocks' in n or 'ed448' in n.lower()]
    out = {'entry_points': sorted(ctx._runs), 'functions_analysed': len(names),
           'crate_functions_analysed': len(crate), 'crate_functions': crate[:120],
           'paths': {n: len(r.outs) for n, r in ctx._runs.items()},
           'branch_sites_split': sum(len(b) for b in ctx.branches.values()),
           'functions_replaced_by_their_own_rule': sorted(p.name[i] if i.__class__ is int else str(i)
                                                           for i in ctx.opaque)}
    if ctx.notes:
        out['notes'] = ctx.notes[:60]
    return out
