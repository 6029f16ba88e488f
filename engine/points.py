"""Group elements: recognition of coordinate triples/quadruples as integer combinations of points.

A point value in memory (struct with fields {x,y,z,t}, {a,b,c} or {n,z}) whose residues are, as
polynomials modulo the curve equation, the coordinates of +-P+-Q for points P, Q already known is
replaced by a carrier: fresh coordinates x,y (interned by the linear form) and a fresh nonzero Z.
Curve: y^2 - x^2 = 1 + D x^2 y^2 over GF(p), D = -39082.
"""
from poly import *
from domain import *
import domain as D_
from mem import *
from interp import *
import fold
from fold import fold_vals, NAMED, is_local, mem_limbs

DT = -39082
INVD = pow(DT % P, -1, P)
HALF = pow(2, -1, P)

# limb bounds assumed of the argument / result of the double-scalar multiplication (checked in wnaf.py)
OPQ_IN = (0x10000200,) * 16
OPQ_OUT = (2 * 0x10000200,) * 16

# ---- linear forms -------------------------------------------------------------------------------
GENS = {'B': {'kind': 'base'}}


def fnorm(f):
    return {g: c for g, c in f.items() if not (c.__class__ is int and c == 0)}


def fadd(f, h, s=1):
    r = dict(f)
    for g, c in h.items():
        r[g] = add(r.get(g, 0), scale(c, s))
    return fnorm(r)


def fscale(f, k):
    """k: int or polynomial"""
    if k.__class__ is int:
        return fnorm({g: scale(c, k) for g, c in f.items()})
    return fnorm({g: vmul(c, k) for g, c in f.items()})


def fkey(f):
    return frozenset((g, key(c)) for g, c in f.items())


def fshow(f):
    return ' + '.join('(%s)*%s' % (show(complete(raw(c)) if c.__class__ is Poly else c, 2, 6), g) for g, c in f.items()) or 'O'


XF = {}         # PX/PY atom -> (form key, 0/1)
FORMS = {}      # form key -> form


def coords(f):
    """(x, y) residues of the point of form f"""
    if not f:
        return 0, 1
    k = fkey(f)
    FORMS[k] = f
    a, b = atom('PX', k, None, None), atom('PY', k, None, None)
    XF[a], XF[b] = (k, 0), (k, 1)
    return pa(a), pa(b)


_nz = [0]


def fresh_z():
    _nz[0] += 1
    return pa(atom('PZ', _nz[0], None, None))


def R(x):
    return rnorm(x, P)


def rm(x, y):
    return rmul(x, y, P)


# ---- normal form modulo the curve equations ---------------------------------------------------------
def nf(r):
    """x^2 y^2 -> (y^2 - x^2 - 1)/D for every point"""
    r = R(r)
    while r.__class__ is not int:
        out = None
        for m, c in r.d.items():
            t = MONO[m]
            hit = None
            seen = {}
            for a, e in t:
                if a in XF and e >= 2:
                    k, w = XF[a]
                    o = seen.get(k)
                    if o is not None:
                        hit = (o, a) if w else (a, o)
                        break
                    seen[k] = a
            if hit:
                if out is None:
                    out = dict(r.d)
                c = out.pop(m, 0)
                if not c:
                    continue
                ax, ay = hit
                rest = dict(t)
                rest[ax] -= 2
                rest[ay] -= 2
                cc = c * INVD % P
                for dx, dy, s in ((0, 2, 1), (2, 0, -1), (0, 0, -1)):
                    q = dict(rest)
                    q[ax] += dx
                    q[ay] += dy
                    mm = mono(tuple(sorted((a, e) for a, e in q.items() if e)))
                    v = (out.get(mm, 0) + s * cc) % P
                    if v:
                        out[mm] = v
                    else:
                        out.pop(mm, None)
        if out is None:
            return r
        r = mk(out)
    return r


def zpart(r):
    """strip the common monomial in PZ atoms -> (rest, exps)"""
    if r.__class__ is int:
        return r, {}
    com = None
    for m in r.d:
        z = {a: e for a, e in MONO[m] if KIND[a] == 'PZ'}
        com = z if com is None else {a: min(e, z.get(a, 0)) for a, e in com.items() if z.get(a, 0)}
        if not com:
            return r, {}
    d = {}
    for m, c in r.d.items():
        t = []
        for a, e in MONO[m]:
            e -= com.get(a, 0)
            if e:
                t.append((a, e))
        d[mono(tuple(t))] = c
    return mk(d), com


def propto(u, v):
    """u == c*v for a nonzero constant c -> c or None (both in normal form)"""
    if u.__class__ is int or v.__class__ is int:
        if u.__class__ is int and v.__class__ is int and u % P and v % P:
            return u * pow(v, -1, P) % P
        return None
    if len(u.d) != len(v.d) or u.d.keys() != v.d.keys():
        return None
    m = next(iter(u.d))
    c = u.d[m] * pow(v.d[m], -1, P) % P
    for k in u.d:
        if (u.d[k] - c * v.d[k]) % P:
            return None
    return c


def dens(x1, y1, x2, y2):
    w = R(scale(rm(rm(x1, x2), rm(y1, y2)), DT))
    return R(add(1, w)), R(sub(1, w))


def addlaw(p, q):
    """affine sum: (xn, xd, yn, yd)"""
    (x1, y1), (x2, y2) = p, q
    d1, d2 = dens(x1, y1, x2, y2)
    return (R(add(rm(x1, y2), rm(y1, x2))), d1, R(add(rm(y1, y2), rm(x1, x2))), d2)


# ---- constants --------------------------------------------------------------------------------------
def n_add(p, q):
    x1, y1 = p
    x2, y2 = q
    w = DT * x1 * x2 * y1 * y2 % P
    return ((x1 * y2 + y1 * x2) * pow(1 + w, -1, P) % P, (y1 * y2 + x1 * x2) * pow(1 - w, -1, P) % P)


def n_mul(k, p):
    r = (0, 1)
    while k:
        if k & 1:
            r = n_add(r, p)
        p = n_add(p, p)
        k >>= 1
    return r


def n_on(p):
    x, y = p
    return (y * y - x * x - 1 - DT * x * x * y * y) % P == 0


# decaf448 base point on the twisted curve, computed from the RFC 8032 base point: see lemma() below
ED_B = (224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710,
        298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660)
ED_D = -39081


def e_add(p, q):
    x1, y1 = p
    x2, y2 = q
    w = ED_D * x1 * x2 * y1 * y2 % P
    return ((x1 * y2 + y1 * x2) * pow(1 + w, -1, P) % P, (y1 * y2 - x1 * x2) * pow(1 - w, -1, P) % P)


def e_mul(k, p):
    r = (0, 1)
    while k:
        if k & 1:
            r = e_add(r, p)
        p = e_add(p, p)
        k >>= 1
    return r


def phi(p):
    """4-isogeny Ed448 -> twisted curve used by decoding"""
    x, y = p
    return (2 * x * y * pow(y * y - x * x, -1, P) % P, (y * y + x * x) * pow(2 - y * y - x * x, -1, P) % P)


def phid(p):
    """dual isogeny used by encoding: phid(phi(p)) = 4p"""
    x, y = p
    return (-2 * x * y * pow(x * x + y * y, -1, P) % P, (y * y - x * x) * pow(2 - y * y + x * x, -1, P) % P)


T2 = (0, P - 1)


def base_point():
    """Bt = T2 - phi(B): the point of order 2q with phid(Bt) = 4*B that the tables are multiples of"""
    x, y = phi(ED_B)
    return n_add(T2, ((-x) % P, y))


_dl = {}


def _dict():
    """points +-2^i B combinations that precomputed tables are made of -> integer"""
    if _dl:
        return _dl
    B = base_point()
    assert n_on(B) and phid(B) == e_mul(4, ED_B) and n_mul(2 * Q, B) == (0, 1) and n_mul(Q, B) == T2

    def put(n, p):
        _dl.setdefault(p, {'B': n})
        _dl.setdefault(n_add(p, T2), {'B': n, 'T2': 1})
        m = ((-p[0]) % P, p[1])
        _dl.setdefault(m, {'B': -n})
        _dl.setdefault(n_add(m, T2), {'B': -n, 'T2': 1})
    p = B
    B2 = n_add(B, B)
    for k in range(1, 128, 2):
        put(k, p)
        p = n_add(p, B2)
    pw = []
    p = B
    for i in range(18 * 24 + 1):
        if i % 18 == 0:
            pw.append((1 << i, p))
        p = n_add(p, p)
    for j in range(5):
        for m in range(16):
            n, p = 0, (0, 1)
            for k in range(5):
                e, q = pw[5 * j + k]
                if k < 4 and not (m >> k) & 1:
                    e, q = -e, ((-q[0]) % P, q[1])
                n += e
                p = n_add(p, q)
            put(n, p)
    return _dl


_const = {}


def const_form(x, y):
    if (x, y) == (0, 1):
        return {}
    f = _const.get((x, y))
    if f is None:
        f = _dict().get((x, y))
        if f is None:
            if not n_on((x, y)):
                return None
            g = 'K%d' % len(GENS)
            GENS[g] = {'kind': 'const', 'xy': (x, y)}
            f = {g: 1}
        _const[(x, y)] = f
    return f


# ---- recognition ---------------------------------------------------------------------------------
_rec = {}


def rec(X, Y, Z, T, depth=0):
    """-> (form, t_is_valid) or None"""
    k = (key(X), key(Y), key(Z), key(T))
    r = _rec.get(k, 0)
    if r == 0:
        r = _rec[k] = _rec0(X, Y, Z, T, depth)
    return r


def _rec0(X, Y, Z, T, depth):
    if all(v.__class__ is int for v in (X, Y, Z)):
        if Z % P == 0:
            return None
        iz = pow(Z, -1, P)
        f = const_form(X * iz % P, Y * iz % P)
        if f is None:
            return None
        return f, T.__class__ is int and (T * Z - X * Y) % P == 0
    ats = set()
    for v in (X, Y, Z, T):
        ats |= atoms_of(v)
    bs = sorted(a for a in ats if BOOL[a])
    if bs:
        if depth > 12:
            return None
        b = bs[-1]
        r1 = rec(*[set_atom(v, b, 1) for v in (X, Y, Z, T)], depth + 1)
        if r1 is None:
            return None
        r0 = rec(*[set_atom(v, b, 0) for v in (X, Y, Z, T)], depth + 1)
        if r0 is None:
            return None
        return fadd(r0[0], fscale(fadd(r1[0], r0[0], -1), pa(b))), r1[1] and r0[1]
    ss = [a for a in ats if KIND[a] == 'SELR']
    if ss:
        return _rec_sel(X, Y, Z, T, ss)
    fs = []
    for a in sorted(ats):
        if a in XF:
            if XF[a][0] not in fs:
                fs.append(XF[a][0])
        elif KIND[a] not in ('PZ', 'PT'):
            return None
    if len(fs) > 2:
        return None
    Z, _ = zr = zpart(nf(Z))
    ZZ = None
    if Z.__class__ is int and Z % P == 0:
        return None
    full = [rm(v, 1) for v in (X, Y)]
    Zf = _mulz(Z, zr[1])
    for f, law in cands(fs):
        xn, xd, yn, yd = law
        if nf(sub(rm(full[0], xd), rm(Zf, xn))) != 0:
            continue
        if nf(sub(rm(full[1], yd), rm(Zf, yn))) != 0:
            continue
        if not nonzero(Z, [xd, yd]):
            continue
        return f, nf(sub(rm(T, Zf), rm(X, Y))) == 0
    return None


def _mulz(r, ex):
    m = mono(tuple(sorted(ex.items())))
    return rm(r, Poly({m: 1})) if ex else r


def nonzero(Z, ds):
    """Z is a nonzero constant times a product of denominators that do not vanish on the subgroup"""
    if Z.__class__ is int:
        return Z % P != 0
    for D in ([ds[0]], [ds[1]], [ds[0], ds[1]]):
        v = 1
        for d in D:
            v = rm(v, d)
        if propto(nf(Z), nf(v)) is not None:
            return True
    return False


_cands = {}


def cands(fs):
    k = tuple(fs)
    c = _cands.get(k)
    if c is not None:
        return c
    out = []

    def xy(k, s=1):
        x, y = coords(FORMS[k])
        return (R(scale(x, s)), y)

    def put(f, law):
        out.append((f, law))
    if len(fs) == 1:
        f = FORMS[fs[0]]
        for s in (1, -1):
            x, y = xy(fs[0], s)
            put(fscale(f, s), (x, 1, y, 1))
        for s in (1, -1):
            p = xy(fs[0], s)
            put(fscale(f, 2 * s), addlaw(p, p))
    elif len(fs) == 2:
        f, h = FORMS[fs[0]], FORMS[fs[1]]
        for s in (1, -1):
            for t in (1, -1):
                put(fadd(fscale(f, s), h, t), addlaw(xy(fs[0], s), xy(fs[1], t)))
    elif not fs:
        put({}, (0, 1, 1, 1))
    _cands[k] = out
    return out


def _rec_sel(X, Y, Z, T, ss):
    d0 = DATA[ss[0]]
    idxk, ks = d0[1], d0[2]
    if any(DATA[a][1] != idxk or DATA[a][2] != ks for a in ss):
        return None
    idx = fpoly(idxk)
    forms = {}
    tv = True
    for n, k in enumerate(ks):
        mp = {a: fpoly(DATA[a][3][n]) for a in ss}
        r = rec(*[fold.rsubst(v, mp, P) if v.__class__ is not int else v for v in (X, Y, Z, T)])
        if r is None:
            return None
        forms[k] = r[0]
        tv = tv and r[1]
    gens = set()
    for f in forms.values():
        gens |= set(f)
    out = {}
    for g in gens:
        cs = [forms[k].get(g, 0) for k in ks]
        c0 = cs[0]
        if len(cs) == 1:
            out[g] = c0
            continue
        dl = sub(cs[1], c0)
        if all(sub(c, c0) == scale(dl, k - ks[0]) for c, k in zip(cs, ks)):
            out[g] = add(c0, vmul(dl, sub(idx, ks[0])))
            continue
        mpk = dict(zip(ks, cs))
        if not is_boolpoly(idx):
            idx = elim(chain_rewrite(idx, True))
        if not is_boolpoly(idx):
            return None
        c = truth(idx, lambda v: mpk[v] if v.__class__ is int else _fail(), 8)
        if c is None:
            return None
        out[g] = c
    return fnorm(out), tv


def _fail():
    raise Unsupported('selection index')


# ---- memory ---------------------------------------------------------------------------------------
def ptype(ip, ty):
    """point type -> (kind, {field: offset})"""
    c = ip.__dict__.setdefault('_ptype', {})
    if ty not in c:
        c[ty] = _ptype(ip, ty)
    return c[ty]


def _ptype(ip, ty):
    p = ip.p
    t = p.T[ty]
    if t['k'] != 'adt' or t.get('adt') != 'struct':
        return None
    fs = {n: (o, ft) for n, o, ft in p.fields(ty)}
    if set(fs) == {'x', 'y', 'z', 't'} and all(p.is_limbs(ft) == 'F' for _, ft in fs.values()):
        return 'ext', {n: o for n, (o, _) in fs.items()}
    if set(fs) == {'a', 'b', 'c'} and all(p.is_limbs(ft) == 'F' for _, ft in fs.values()):
        return 'niels', {n: o for n, (o, _) in fs.items()}
    if set(fs) == {'n', 'z'} and p.is_limbs(fs['z'][1]) == 'F':
        n = ptype(ip, fs['n'][1])
        if n and n[0] == 'niels':
            d = {k: fs['n'][0] + o for k, o in n[1].items()}
            d['z'] = fs['z'][0]
            return 'pniels', d
    return None


ORD = {'ext': 'xyzt', 'niels': 'abc', 'pniels': 'abcz'}


def arr_of(vals):
    """limb values -> (residue, bounds, vlo, vhi) or None"""
    if vals is None:
        return None
    if all(v.__class__ is int for v in vals):
        v = sum(x << (28 * i) for i, x in enumerate(vals))
        return v % P, tuple(vals), v, v
    if not fold._exact(vals):
        A = fold_vals('F', vals)
        if A is None:
            return None
    else:
        A = LIMB[linear_atom(vals[0])][0]
    if A.kind != 'F':
        return None
    return A.res, A.bounds, A.vlo, A.vhi


def to_ext(kind, rs):
    if kind == 'ext':
        return rs
    a, b, c = rs[:3]
    z = 1 if kind == 'niels' else rs[3]
    return [R(sub(b, a)), R(add(a, b)), z, R(scale(c, INVD))]


def is_carrier(kind, rs):
    X, Y, Z, T = to_ext(kind, rs)
    if kind == 'niels':
        a = linear_atom(X)
        return a is not None and a in XF
    if Z.__class__ is int:
        return False
    a = linear_atom(Z)
    if a is None or KIND[a] != 'PZ':
        return False
    ats = atoms_of(X) | atoms_of(Y)
    return len(ats - {a}) <= 2 and all(z == a or z in XF for z in ats) and len({XF[z][0] for z in ats if z != a}) <= 1 \
        and (X == 0 or (len(X.d) == 1 and 1 in X.d.values() and len(MONO[min(X.d)]) == 2)) and len(Y.d) == 1


def carrier_res(kind, f, tv):
    x, y = coords(f)
    xy = rm(x, y)
    if kind == 'niels':
        return [R(scale(sub(y, x), HALF)), R(scale(add(y, x), HALF)), R(scale(xy, DT))]
    z = fresh_z()
    if kind == 'pniels':
        return [rm(R(scale(sub(y, x), HALF)), z), rm(R(scale(add(y, x), HALF)), z), rm(R(scale(xy, DT)), z), z]
    t = rm(xy, z) if tv else pa(atom('PT', _nz[0], None, None))
    return [rm(x, z), rm(y, z), z, t]


LOG = []
DEBUG = []


class Points:
    """POINT_HOOK for fold.py"""

    def __init__(self):
        self.events = []

    def analyse(self, ip, st, kind, vs):
        """vs: limb values per coordinate -> new Arrs or None"""
        info = [arr_of(v) for v in vs]
        if any(i is None for i in info):
            return None
        rs = [i[0] for i in info]
        if is_carrier(kind, rs):
            return None
        X, Y, Z, T = to_ext(kind, rs)
        r = rec(X, Y, Z, T)
        if r is None and kind == 'ext' and st is not None:
            r = self.generator(ip, st, X, Y, Z, T)
        if r is None:
            if DEBUG:
                print('NOT A POINT', kind, [show(v, 2, 8)[:600] for v in (X, Y, Z, T)])
            return None
        f, tv = r
        if kind != 'ext' and not tv:
            return None
        out = []
        for res, i in zip(carrier_res(kind, f, tv), info):
            out.append(new_arr('F', res, tuple(max(b, (1 << 28) - 1) for b in i[1]), i[2], i[3], False))
        return out

    def generator(self, ip, st, X, Y, Z, T):
        """a point shown to lie on the curve by the facts of this partition becomes a generator"""
        if any(v.__class__ is int for v in (X, Z)):
            return None
        if any(KIND[a] in ('PX', 'PY', 'PZ', 'PT', 'SELR') for v in (X, Y, Z) for a in atoms_of(v)):
            return None
        if R(sub(rm(T, Z), rm(X, Y))) != 0:
            return None
        k = (key(X), key(Y), key(Z))
        c = sub(sub(rm(Y, Y), rm(X, X)), add(rm(Z, Z), R(scale(rm(T, T), DT))))
        # the facts are those of the current partition: the cached name alone proves nothing
        if ip.apply_known(st, fzres(R(c))) != 1 or ip.apply_known(st, fzres(Z)) != 0:
            return None
        if not hasattr(self, 'gens'):
            self.gens = {}
        f = self.gens.get(k)
        if f is None:
            g = 'G%d' % len(GENS)
            GENS[g] = {'kind': 'decoded', 'res': (X, Y, Z, T)}
            f = self.gens[k] = {g: 1}
        return f, True

    def inline(self, ip, inst):
        """functions from scalars to points are analysed in place (their result is a linear form)"""
        c = ip.__dict__.setdefault('_ptinl', {})
        if inst not in c:
            code = ip.get_code(inst)
            tys = [code.ltys[i] for i in range(code.argc + 1)]
            tys = [ip.p.T[t]['to'] if ip.p.T[t]['k'] in ('ref', 'ptr') and ip.p.cls(t) == 's' else t for t in tys]
            c[inst] = any(ip.p.is_limbs(t) == 'S' for t in tys) and any(ptype(ip, t) for t in tys)
        return c[inst]

    def opaque(self, ip, st, inst, args):
        """(P, s, t) -> s*B + t*P: the variable-time double-scalar multiplication is decided by its own
        rule (wnaf.py); here its result is the linear form that rule establishes"""
        c = ip.__dict__.setdefault('_ptopq', {})
        sig = c.get(inst, 0)
        if sig == 0:
            code = ip.get_code(inst)
            tys = [code.ltys[i] for i in range(code.argc + 1)]
            tt = [ip.p.T[t]['to'] if ip.p.T[t]['k'] in ('ref', 'ptr') and ip.p.cls(t) == 's' else t for t in tys]
            pt = [ptype(ip, t) for t in tt]
            sc = [i for i in range(1, len(tt)) if ip.p.is_limbs(tt[i]) == 'S']
            pp = [i for i in range(1, len(tt)) if pt[i] and pt[i][0] == 'ext']
            sig = None
            if pt[0] and pt[0][0] == 'ext' and len(sc) == 2 and len(pp) == 1 and len(tys) == 4:
                sig = (tt, sc, pp[0])
            c[inst] = sig
        if sig is None:
            return None
        tt, sc, pi = sig
        ip.opaque_calls.add(inst)

        def val(i):
            a = args[i - 1]
            return ip.load(st, a, tt[i]) if a.__class__ is Ptr else a
        co = []
        for i in sc:
            b = val(i)
            vs = [x for _, _, x in sorted(b.cells, key=lambda z: z[0])]
            if all(x.__class__ is int for x in vs):
                co.append(sum(x << (32 * j) for j, x in enumerate(vs)))
                continue
            A = blob_arr(b)
            if A is None:
                A = fold.fold_memo('S', vs)
            if A is None:
                raise Unsupported('double-scalar multiplication by an unknown scalar')
            co.append(pa(A.val))
        b = val(pi)
        kind, offs = ptype(ip, tt[pi])
        d = {o: v for o, _, v in b.cells}
        info = [arr_of([d[offs[n] + 4 * j] for j in range(16)]) for n in ORD[kind]]
        if any(i is None for i in info):
            raise Unsupported('double-scalar multiplication of an unknown point')
        f = find_form([i[0] for i in info])
        if f is None:
            raise Unsupported('double-scalar multiplication of an unknown point')
        if any(x > y for i in info for x, y in zip(i[1], OPQ_IN)):
            raise Unsupported('double-scalar multiplication of a point with unreduced coordinates')
        g = fadd(fscale({'B': 1}, co[0]), fscale(f, co[1]))
        kind, offs = ptype(ip, tt[0])
        cells = []
        bd = OPQ_OUT
        for n, res in zip(ORD['ext'], carrier_res('ext', g, False)):
            A = new_arr('F', res, bd, 0, sum(x << (28 * i) for i, x in enumerate(bd)), False)
            cells += [(offs[n] + 4 * j, 4, pa(A.limbs[j])) for j in range(16)]
        return Blob(ip.p.size(tt[0]), sorted(cells))

    # -- hooks
    def blob(self, ip, st, v, ty, fr):
        pt = ptype(ip, ty)
        if pt is None:
            return v
        kind, offs = pt
        idx = {c[0]: i for i, c in enumerate(v.cells)}
        vs = []
        for n in ORD[kind]:
            ii = [idx.get(offs[n] + 4 * j) for j in range(16)]
            if any(i is None for i in ii):
                return v
            vs.append([v.cells[i][2] for i in ii])
        out = self.analyse(ip, st, kind, vs)
        if out is None:
            return v
        cells = list(v.cells)
        for n, A in zip(ORD[kind], out):
            for j in range(16):
                o = offs[n] + 4 * j
                cells[idx[o]] = (o, 4, pa(A.limbs[j]))
        return Blob(v.size, cells)

    def mem(self, ip, st, q, ty, fr):
        pt = ptype(ip, ty)
        if pt is None or q.__class__ is not Ptr or q.o.__class__ is not int:
            return
        kind, offs = pt
        al = st.mem.m.get(q.a)
        if al is None or al.const is not None:
            return
        vs = [mem_limbs(al, q.o + offs[n], 'F') for n in ORD[kind]]
        if any(v is None for v in vs):
            return
        out = self.analyse(ip, st, kind, vs)
        if out is None:
            return
        w = st.mem.w(q.a)
        for n, A in zip(ORD[kind], out):
            for j in range(16):
                w.cells[q.o + offs[n] + 4 * j] = (4, pa(A.limbs[j]))

    def call(self, ip, st, inst, args):
        code = ip.get_code(inst)
        for i, a in enumerate(args):
            if i >= code.argc:
                break
            ty = code.ltys[i + 1]
            t = ip.p.T[ty]
            if t['k'] in ('ref', 'ptr') and a.__class__ is Ptr:
                pt = ptype(ip, t['to'])
                if pt is None:
                    continue
                al = st.mem.m.get(a.a)
                if al is None:
                    continue
                if a.o.__class__ is not int or al.const is not None:
                    if t.get('mut'):
                        continue
                    v = ip.load(st, a, t['to'])
                    n = self.blob(ip, st, v, t['to'], None)
                    if n is not v:
                        k = st.mem.new(ip.p.size(t['to']), 'pt')
                        ip.store_blob(st.mem.w(k), 0, n, 0)
                        args[i] = Ptr(k, 0)
                else:
                    self.mem(ip, st, a, t['to'], None)
            elif a.__class__ is Blob and ptype(ip, ty):
                args[i] = self.blob(ip, st, a, ty, None)


def find_form(rs, kind='ext'):
    """form of a carrier"""
    X, Y, Z, T = to_ext(kind, rs)
    if X == 0:
        return {} if Y == Z else None
    for a in atoms_of(X):
        if a in XF:
            return FORMS[XF[a][0]]
    return None


def install(ip):
    fold.install(ip)
    ip.opaque_calls = set()
    ip.points = fold.POINT_HOOK[0] = Points()
    return ip


# ---- encoding: canonical residues that are coordinates of the image of a point --------------------
def _factors(r, fs):
    """r == c * prod f_i^e_i (mod curve), exponents small -> (c, [e]) or None; r stripped of PZ"""
    vs = [1]
    lst = [((), 1)]
    for n, f in enumerate(fs):
        new = []
        for e0, v in lst:
            p = v
            for e in range(0, 5):
                new.append((e0 + (e,), p))
                p = nf(rm(p, f))
        lst = new
    r = nf(r)
    for es, v in lst:
        c = propto(r, v)
        if c is not None:
            return c, es
    return None


def qr(c):
    return pow(c % P, (P - 1) // 2, P) == 1


_enc = {}


def enc_hook(r):
    k = r.key()
    if k not in _enc:
        _enc[k] = _enc_hook(r)
    return _enc[k]


def _enc_identity(r, num, B, E):
    """num/B where only powers of Z and constants are left: the identity"""
    bs, zb = zpart(B)
    ns, zn = (num, zb) if is_c(num) and num == 0 else zpart(num)
    if not is_c(bs) or not is_c(ns) or bs % P == 0:
        return r
    if ns == 0:
        return 0
    if bs == 1 and all((zn.get(a, 0) + E * e) % (P - 1) == 0 for a, e in zb.items()) and not set(zn) - set(zb):
        return ns           # Z is not zero: Z^(p-1) = 1
    if zb != zn:
        return r
    if E == P - 2 or (E == (P - 3) // 2 and qr(bs) and all(z % 2 == 0 for z in zb.values())):
        return ns * pow(bs, -1, P) % P
    return r


def _enc_hook(r):
    """num * 1/den of one point's coordinates -> EX/EY atom of the point's form"""
    pws = {}
    for m in r.d:
        for a, e in MONO[m]:
            if KIND[a] == 'PW':
                pws[a] = max(pws.get(a, 0), e)
    if len(pws) != 1:
        return r
    pw, = pws
    _, base, e = DATA[pw]
    ee = None
    num = {}
    for m, c in r.d.items():
        t = MONO[m]
        x = [q for q in t if q[0] == pw]
        if not x:
            return r
        if ee is None:
            ee = x[0][1]
        if x[0][1] != ee:
            return r
        num[mono(tuple(q for q in t if q[0] != pw))] = c
    E = e * ee % (P - 1)
    num = mk(num)
    B = NAMED.get(base)
    B = pa(base) if B is None else B
    num, zn = fold.unname('F', num), None
    B = fold.unname('F', B)
    fs = {XF[a][0] for v in (num, B) for a in atoms_of(v) if a in XF}
    if not fs:
        return _enc_identity(r, num, B, E)
    if len(fs) != 1:
        return r
    fk, = fs
    x, y = coords(FORMS[fk])
    s = R(add(rm(x, x), rm(y, y)))
    d = R(sub(rm(y, y), rm(x, x)))
    t = R(sub(2, d))
    Bs, zx = zpart(B)
    fac = _factors(Bs, [s, t, d])
    if fac is None:
        return r
    if E == P - 2:
        pass
    elif E == (P - 3) // 2:
        # base^((p-3)/2) = 1/base when base is a square
        if not (qr(fac[0]) and all(z % 2 == 0 for z in fac[1]) and all(z % 2 == 0 for z in zx.values())):
            return r
    else:
        return r
    if nf(sub(rm(num, t), rm(B, d))) == 0:
        return pa(atom('EY', fk, None, None))
    if nf(add(rm(num, s), rm(B, R(scale(rm(x, y), 2))))) == 0:
        return pa(atom('EX', fk, None, None))
    return r


# ---- zero tests --------------------------------------------------------------------------------------
def fz_hook(r):
    ats = atoms_of(r)
    fs = {XF[a][0] for a in ats if a in XF}
    if not fs:
        return fz_dec(r)
    n = nf(r)
    if n.__class__ is int:
        return 1 if n == 0 else 0
    n, _ = zpart(n)
    if n.__class__ is int:
        return 0
    if len(fs) == 2:
        a, b = fs
        (x1, y1), (x2, y2) = coords(FORMS[a]), coords(FORMS[b])
        if propto(n, R(sub(rm(x1, y2), rm(y1, x2)))) is not None:
            return pa(atom('PEQ', frozenset(fs), 0, 1, True))
    return None


E34 = (P - 3) // 4
ED = -39081


def dec_parts(y):
    """(u, v) of the decompression x^2 = u/v for the y-coordinate residue y"""
    y2 = rm(y, y)
    return R(sub(1, y2)), R(sub(1, scale(y2, ED)))


def dec_x(y):
    """the candidate root u*(uv)^((p-3)/4), named the way the engine names powers"""
    u, v = dec_parts(y)
    n = fold.name_res('F', rm(u, v))
    (m, c), = n.d.items()
    (a, _), = MONO[m]
    w = pa(atom('PW', ('F', a, E34), None, None))
    return rm(u, R(scale(w, pow(c, E34, P)))), u, v


def fz_dec(r):
    ats = atoms_of(r)
    if all(KIND[a] == 'PZ' for a in ats) and len(r.d) == 1:
        return 0
    pws = [a for a in ats if KIND[a] == 'PW']
    if len(pws) != 1 or DATA[pws[0]][0] != 'F' or DATA[pws[0]][2] != E34 or any(BOOL[a] for a in ats):
        return None
    base = DATA[pws[0]][1]
    B = NAMED.get(base)
    if B is None:
        return None
    ys = atoms_of(B)
    if len(ys) != 1:
        return None
    y = pa(next(iter(ys)))
    x, u, v = dec_x(y)
    if fold.name_res('F', rm(u, v)) != fold.name_res('F', B) and propto(rm(u, v), B) is None:
        return None
    w = pa(pws[0])
    if not ats <= {pws[0], next(iter(ys))}:
        return None
    x2, y2 = rm(x, x), rm(y, y)
    s = R(add(x2, y2))
    E = R(sub(rm(v, x2), u))
    pe = E
    for i in range(5):
        pv = pe
        for j in range(3):
            if propto(r, pv) is not None:
                return fz_atom(E)
            pv = rm(pv, v)
        pe = rm(pe, s)
    # v never vanishes (the curve constant is not a square), so the root vanishes exactly with u
    pu = 1
    for i in range(4):
        pw = pu
        for j in range(5):
            if i + j and propto(r, pw) is not None:
                return fz_atom(u)
            pw = rm(pw, w)
        pu = rm(pu, u)
    # on the curve neither y^2 - x^2 nor 2 - x^2 - y^2 vanishes (no points of order 8; d not a square)
    d1, d2 = R(sub(y2, x2)), R(sub(2, s))
    for f in (d1, d2, rm(d1, d2)):
        if propto(r, f) is not None:
            return pmul(fz_atom(r), sub(1, fz_atom(E)))
    return None


def fz_atom(r):
    m = min(r.d)
    r = rnorm(scale(r, pow(r.d[m], -1, P)), P)
    return pa(atom('FZ', r.key(), 0, 1, True))


assert pow(ED % P, (P - 1) // 2, P) == P - 1 and pow(1 - ED, (P - 1) // 2, P) == P - 1


def install(ip):
    fold.install(ip)
    ip.opaque_calls = set()
    ip.points = fold.POINT_HOOK[0] = Points()
    D_.UNNAME[0] = fold.unname
    D_.RES_HOOK[0] = enc_hook
    D_.FZ_HOOK[0] = fz_hook
    return ip
