"""Value-numbering domain, part 2: intervals, floors, predicates, bit operations.

Normal form ("floor form"): E mod 2^k is written E - 2^k*F(E,k), so carry chains telescope
algebraically; F(E,k) = floor(E / 2^k) is an interned atom.  Predicates are boolean atoms
GE(D) = [D >= 0], EQ(D) = [D == 0], FZ(r) = [r == 0 mod p].
"""
from poly import *
import poly as _p

LENMAX = 2**62


class Unsupported(Exception):
    pass


# ---- limb arrays ---------------------------------------------------------
class Arr:
    """An array of limbs standing for a residue: kind 'F' (16 x 28 bit, mod p), 'S' (14 x 32 bit, mod q)."""
    __slots__ = ('id', 'kind', 'res', 'bounds', 'vlo', 'vhi', 'canon', 'limbs', 'val', 'info')


ARRS = []
N = {'F': 16, 'S': 14}
RAD = {'F': 28, 'S': 32}
MOD = {'F': P, 'S': Q}
_canon = {}
LIMB = {}    # atom -> (Arr, i)
VALOF = {}   # VAL atom -> Arr


RES_HOOK = [None]


def new_arr(kind, res, bounds, vlo, vhi, canon=False, tag=None):
    if canon and kind == 'F' and RES_HOOK[0] and res.__class__ is not int:
        res = RES_HOOK[0](res)
    if canon:
        k = (kind, key(res))
        a = _canon.get(k)
        if a is not None:
            return a
    a = Arr()
    a.id = len(ARRS)
    ARRS.append(a)
    a.kind, a.res, a.canon, a.info = kind, res, canon, tag
    if canon:
        vlo, vhi = 0, MOD[kind] - 1
        top = vhi >> (RAD[kind] * (N[kind] - 1))
        bounds = tuple([(1 << RAD[kind]) - 1] * (N[kind] - 1) + [top])
        _canon[k] = a
    a.bounds = tuple(bounds)
    a.vlo, a.vhi = vlo, min(vhi, sum(b << (RAD[kind] * i) for i, b in enumerate(bounds)))
    a.limbs = [atom('L', (a.id, i), 0, b) for i, b in enumerate(a.bounds)]
    a.val = atom('VAL', a.id, a.vlo, a.vhi)
    VALOF[a.val] = a
    for i, l in enumerate(a.limbs):
        LIMB[l] = (a, i)
    return a


# ---- interval facts --------------------------------------------------------
TABLES = [{}]      # innermost last; facts about constant-free primitive polynomials
GEN = [0]


def _prim(x):
    g = 0
    lead = None
    for m, c in x.d.items():
        if m:
            g = gcd(g, c)
            if lead is None or m < lead:
                lead = m
    if x.d[lead] < 0:
        g = -g
    c0 = x.d.get(0, 0)
    k = frozenset((m, c // g) for m, c in x.d.items() if m)
    return k, g, c0


def register(x, lo, hi):
    if x.__class__ is int:
        return
    k, g, c0 = _prim(x)
    if g > 0:
        l, h = -((c0 - lo) // g), (hi - c0) // g
    else:
        l, h = -((hi - c0) // -g), (c0 - lo) // -g
    t = TABLES[-1]
    o = t.get(k)
    if o is not None:
        l, h = max(l, o[0]), min(h, o[1])
    t[k] = (l, h)
    x._iv = None


def _lookup(x):
    k, g, c0 = _prim(x)
    lo = hi = None
    for t in TABLES:
        o = t.get(k)
        if o is not None:
            lo = o[0] if lo is None else max(lo, o[0])
            hi = o[1] if hi is None else min(hi, o[1])
    if lo is None:
        return None
    a, b = g * lo + c0, g * hi + c0
    return (a, b) if g > 0 else (b, a)


_miv = {}


def mono_iv(m):
    v = _miv.get(m)
    if v is not None:
        return v
    lo, hi = 1, 1
    for a, e in MONO[m]:
        l, h = LO[a], HI[a]
        if l is None:
            raise Unsupported('interval of %s' % show_atom(a))
        if e > 1:
            if l >= 0:
                l, h = l**e, h**e
            else:
                mx = max(abs(l), abs(h))**e
                l, h = (0 if e % 2 == 0 else -mx), mx
        c = (lo * l, lo * h, hi * l, hi * h)
        lo, hi = min(c), max(c)
    _miv[m] = (lo, hi)
    return lo, hi


def naive(x):
    if x.__class__ is int:
        return x, x
    lo = hi = 0
    for m, c in x.d.items():
        if m == 0:
            lo += c
            hi += c
            continue
        l, h = mono_iv(m)
        if c > 0:
            lo += c * l
            hi += c * h
        else:
            lo += c * h
            hi += c * l
    return lo, hi


def _single_f(a):
    """atom a = F(w,s) of a single atom w -> (w,s); plain atom -> (a,0)"""
    if KIND[a] == 'F':
        k, s = DATA[a]
        if len(k) == 1:
            (m, c), = k
            t = MONO[m]
            if c == 1 and len(t) == 1 and t[0][1] == 1 and m:
                return t[0][0], s
        return None
    if KIND[a] in ('GE', 'EQ'):
        pr = PROV.get(a)
        if pr is not None and pr[2] == 0:
            w = linear_atom(pr[0])
            if w is not None:
                return w, pr[1]
        return None
    return a, 0


def chain_rewrite(x, bits=False):
    """rewrite F(w,s) = M(F(w,s),g) + 2^g F(w,s+g) for consecutive s present; tight for intervals"""
    groups = {}
    for a in atoms_of(x):
        sf = _single_f(a)
        if sf:
            groups.setdefault(sf[0], []).append((sf[1], a))
    mp = {}
    for w, l in groups.items():
        if len(l) < 2:
            continue
        l.sort()
        for (s, a), (s2, a2) in zip(l, l[1:]):
            g = s2 - s
            if bits and g <= 40:
                r = scale(pa(a2), 1 << g)
                for j in range(g):
                    f0, f1 = F(pa(w), s + j), F(pa(w), s + j + 1)
                    r = add(r, scale(bv(sub(f0, scale(f1, 2))), 1 << j))
                mp[a] = r
            else:
                m = atom('M', (key(pa(a)), g), 0, (1 << g) - 1)
                mp[a] = add(pa(m), scale(pa(a2), 1 << g))
    if not mp:
        return x
    for _ in range(64):
        y = subst(x, mp)
        if y == x if y.__class__ is int else y.__class__ is x.__class__ and y.d == x.d:
            break
        x = y
        if x.__class__ is int:
            break
    return x


def interval(x, depth=0):
    if x.__class__ is int:
        return x, x
    if x._iv is not None:
        return x._iv
    lo, hi = naive(x)
    t = _lookup(x)
    if t:
        lo, hi = max(lo, t[0]), min(hi, t[1])
    if len(x.d) < 400:
        y = chain_rewrite(x)
        if y is not x:
            l, h = naive(y)
            lo, hi = max(lo, l), min(hi, h)
        if depth < 3:
            l, h = _split_iv(x, depth)
            lo, hi = max(lo, l), min(hi, h)
    if depth == 0:
        x._iv = (lo, hi)
    return lo, hi


def _split_iv(x, depth):
    """case split on predicate atoms"""
    lo, hi = -INF, INF
    n = 0
    lin, non = set(), set()
    for m in x.d:
        t = MONO[m]
        for a, _ in t:
            if BOOL[a]:
                (lin if len(t) == 1 else non).add(a)
    for a in sorted(lin | non, reverse=True):
        if KIND[a] == 'GE':
            D = fpoly(DATA[a])
            if a not in non and max(D.d) not in x.d:
                continue
        elif a not in non:
            continue
        n += 1
        if n > 2:
            break
        x1, x0 = set_atom(x, a, 1), set_atom(x, a, 0)
        l1, h1 = interval(x1, depth + 1)
        l0, h0 = interval(x0, depth + 1)
        if KIND[a] == 'GE':
            dl, dh = interval(D, depth + 1)
            l1, h1 = _rel(x1, D, 0, dh, l1, h1)
            l0, h0 = _rel(x0, D, dl, -1, l0, h0)
        lo, hi = max(lo, min(l1, l0)), min(hi, max(h1, h0))
    return lo, hi


def _rel(x, D, dl, dh, lo, hi):
    if x.__class__ is int or D.__class__ is int:
        return lo, hi
    m = max(k for k in D.d if k)
    c = x.d.get(m, 0)
    if c == 0 or c % D.d[m]:
        return lo, hi
    c //= D.d[m]
    r = sub(x, scale(D, c))
    rl, rh = naive(r)
    a, b = (c * dl, c * dh) if c > 0 else (c * dh, c * dl)
    return max(lo, a + rl), min(hi, b + rh)


def _tight_elim(x):
    """eliminate floors: F(E,k) = (E - M)/2^k; returns integer polynomial y and scale s with x = y / s"""
    s = 1
    y = x
    while True:
        best = None
        for a in atoms_of(y):
            if KIND[a] == 'F' and (best is None or a > best):
                best = a
            elif a in PROV and (best is None or a > best):
                best = a
        if best is None:
            break
        if KIND[best] == 'F':
            E, k = fpoly(DATA[best][0]), DATA[best][1]
            off = 0
        else:
            E, k, off = PROV[best]
        M = pa(atom('M', (key(E), k), 0, (1 << k) - 1))
        rep = sub(sub(E, M), off << k)      # (E - M)/2^k - off
        y1, y0 = split_atom(y, best)
        if best in atoms_of(y1):
            return None, None
        y = add(pmul(y1, rep), scale(y0, 1 << k))
        s <<= k
        if y.__class__ is int:
            break
        if len(y.d) > 3000:
            return None, None
    return y, s


def tight(x):
    """interval through the rational (remainder) form"""
    lo, hi = interval(x)
    if x.__class__ is int:
        return lo, hi
    if len(x.d) > 1200:
        return lo, hi
    y, s = _tight_elim(raw(x))
    if y is None:
        return lo, hi
    cands = [y]
    if y.__class__ is not int:
        tops = {}
        for a in atoms_of(y):
            if a in LIMB:
                A, i = LIMB[a]
                if i == N[A.kind] - 1:
                    tops[a] = A
        z, zs = y, s
        for a, A in tops.items():
            if z.__class__ is int:
                break
            sh = RAD[A.kind] * (N[A.kind] - 1)
            rep = pa(A.val)
            for i in range(N[A.kind] - 1):
                rep = sub(rep, scale(pa(A.limbs[i]), 1 << (RAD[A.kind] * i)))
            z1, z0 = split_atom(z, a)
            if a in atoms_of(z1):
                break
            z = add(pmul(z1, rep), scale(z0, 1 << sh))
            zs <<= sh
        for w, ws in ((y, s), (z, zs)):
            l, h = naive(w)
            lo, hi = max(lo, -((-l) // ws)), min(hi, h // ws)
    if (lo, hi) != interval(x):
        register(x, lo, hi)
    return lo, hi


# ---- boolean names ----------------------------------------------------------
ELIM = {}
PROV = {}


def bv(x, el=True):
    """name a {0,1}-valued polynomial"""
    if x.__class__ is int or is_boolpoly(x):
        return x
    x = raw(x)
    if x.__class__ is int or is_boolpoly(x):
        return x
    lead = min(m for m in x.d if m)
    if x.d[lead] < 0:
        return sub(1, bv(sub(1, x), el))
    b = find_atom('BV', x.key())
    if b is None:
        b = atom('BV', x.key(), 0, 1, True)
        # w - 2 F(w,1)  /  F(w,s) - 2 F(w,s+1): eliminate the first
        if el and len(x.d) == 2 and 0 not in x.d:
            for m, c in x.d.items():
                t = MONO[m]
                if c == 1 and len(t) == 1 and t[0][1] == 1:
                    a = t[0][0]
                    rest = sub(x, pa(a))
                    ra = linear_atom(scale(rest, -1) if False else mk({mm: -cc // 2 for mm, cc in rest.d.items()}))
                    if ra is not None and a not in ELIM and all(cc == -2 for cc in rest.d.values()):
                        fa, fr = _single_f(a), _single_f(ra)
                        if fa and fr and fa[0] == fr[0] and fr[1] == fa[1] + 1:
                            ELIM[a] = sub(pa(b), rest)
    return pa(b)


def elim(x):
    if x.__class__ is int or not ELIM:
        return x
    for _ in range(80):
        if not any(a in ELIM for a in atoms_of(x)):
            return x
        x = subst(x, ELIM)
        if x.__class__ is int:
            return x
    return x


def raw(x):
    """expand boolean names"""
    if x.__class__ is int:
        return x
    mp = {}
    for a in atoms_of(x):
        if KIND[a] == 'BV':
            mp[a] = fpoly(DATA[a])
    return subst(x, mp) if mp else x


def is01(x):
    lo, hi = interval(x)
    return lo >= 0 and hi <= 1


def vmul(x, y):
    if x.__class__ is int or y.__class__ is int:
        return pmul(x, y)
    if not is_boolpoly(x) and is01(x):
        x = bv(x)
        y = elim(y)
    if y.__class__ is not int and not is_boolpoly(y) and is01(y):
        y = bv(y)
        x = elim(x)
    if x.__class__ is not int and y.__class__ is not int:
        if is_boolpoly(x):
            y = elim(y)
        elif is_boolpoly(y):
            x = elim(x)
    r = pmul(x, y)
    if r.__class__ is not int:
        a, b = interval(x), interval(y)
        c = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
        lo, hi = min(c), max(c)
        n = interval(r)
        if lo > n[0] or hi < n[1]:
            register(r, max(lo, n[0]), min(hi, n[1]))
    return r


def vadd(x, y):
    r = add(x, y)
    if r.__class__ is not int and x.__class__ is not int and y.__class__ is not int:
        a, b = interval(x), interval(y)
        lo, hi = a[0] + b[0], a[1] + b[1]
        n = interval(r)
        if lo > n[0] or hi < n[1]:
            register(r, max(lo, n[0]), min(hi, n[1]))
    return r


def vsub(x, y):
    r = sub(x, y)
    if r.__class__ is not int and x.__class__ is not int and y.__class__ is not int:
        a, b = interval(x), interval(y)
        lo, hi = a[0] - b[1], a[1] - b[0]
        n = interval(r)
        if lo > n[0] or hi < n[1]:
            register(r, max(lo, n[0]), min(hi, n[1]))
    return r


# ---- floor --------------------------------------------------------------------
_fmemo = {}


def val2(c):
    return (c & -c).bit_length() - 1


def F(E, k):
    if E.__class__ is int:
        return E >> k
    if k == 0:
        return E
    mk_ = (E.key(), k)
    r = _fmemo.get(mk_)
    if r is None:
        r = _F(E, k)
        lo, hi = interval(E)
        lo, hi = lo >> k, hi >> k
        if r.__class__ is not int:
            n = interval(r)
            if lo > n[0] or hi < n[1]:
                register(r, max(lo, n[0]), min(hi, n[1]))
        if len(TABLES) == 1:
            _fmemo[mk_] = r
    return r


def _nonlin_bool(E):
    """a boolean atom multiplying something that is not boolean"""
    for m in E.d:
        t = MONO[m]
        if len(t) > 1:
            b = None
            nb = False
            for a, _ in t:
                if BOOL[a]:
                    b = a
                else:
                    nb = True
            if nb and b is not None:
                return b
    return None


def _lowsplit(E, k):
    """largest-a split E = low + 2^a*H with 0 <= low < 2^a, a <= k"""
    vals = sorted({val2(c) for m, c in E.d.items()} | {0})
    for a in reversed([v for v in vals if 0 < v] + [k]):
        if a > k:
            a = k
        low = {m: c for m, c in E.d.items() if c % (1 << a)}
        if not low or len(low) == len(E.d):
            continue
        lp = mk(dict(low))
        # the constant may be split too
        lo, hi = interval(lp)
        if lo >= 0 and hi < (1 << a):
            H = mk({m: c >> a for m, c in E.d.items() if m not in low})
            return a, H, lp
        if 0 in E.d:
            c0 = E.d[0]
            l2 = sub(lp, const_part(lp))
            lo, hi = interval(l2)
            r = c0 % (1 << a)
            for rr in (r, r - (1 << a)):
                if lo + rr >= 0 and hi + rr < (1 << a):
                    H = mk({m: c >> a for m, c in E.d.items() if m not in low and m})
                    return a, add(H, (c0 - rr) >> a), add(l2, rr)
    return None


def _compound(E):
    """carry-like atom with coefficient +-1 -> (atom, coef, A, a, off) meaning atom = F(A,a) - off"""
    best = None
    for m, c in E.d.items():
        if c != 1 and c != -1:
            continue
        t = MONO[m]
        if len(t) != 1 or t[0][1] != 1:
            continue
        a = t[0][0]
        if KIND[a] == 'F':
            if len(E.d) > 1 and _single_f(a):
                continue
            A, s, off = fpoly(DATA[a][0]), DATA[a][1], 0
        elif a in PROV:
            A, s, off = PROV[a]
            if linear_atom(A) is not None:
                continue
        else:
            continue
        k = (s, a)
        if best is None or k > best[0]:
            best = (k, a, c, A, s, off)
    return best[1:] if best else None


def _F(E, k):
    E0 = E
    lo, hi = interval(E)
    if lo >> k == hi >> k:
        return lo >> k
    b = _nonlin_bool(E)
    if b is not None:
        return _bsplit(E, b, lambda z: F(z, k))
    w = linear_atom(E)
    if w is not None:
        if KIND[w] == 'F':
            return F(fpoly(DATA[w][0]), DATA[w][1] + k)
        if w in PROV and PROV[w][2] == 0:
            return F(PROV[w][0], PROV[w][1] + k)
    a = min(val2(c) for c in E.d.values())
    if a:
        a = min(a, k)
        H = mk({m: c >> a for m, c in E.d.items()})
        return F(H, k - a) if k > a else H
    # whole multiples of 2^k among constants and predicates first
    q = {}
    low = None
    for m, c in E.d.items():
        if c % (1 << k) == 0 and all(BOOL[a] or KIND[a] == 'F' for a, _ in MONO[m]):
            if m:
                if low is None:     # digits of one word stay together
                    low = set()
                    for m2, c2 in E.d.items():
                        if c2 % (1 << k):
                            for a, _ in MONO[m2]:
                                w = _single_f(a)
                                if w:
                                    low.add((w[0], c2, w[1]))
                t = MONO[m]
                w = _single_f(t[0][0]) if len(t) == 1 else None
                if w and any(w0 == w[0] and s0 < w[1] and c == -(c0 << (w[1] - s0)) for w0, c0, s0 in low):
                    continue
            q[m] = c >> k
    if q:
        Qp = mk(q)
        R = sub(E, scale(Qp, 1 << k))
        l, h = interval(Qp)
        if R.__class__ is not int and len(q) == 1 and 0 in q:
            register(R, lo - (l << k), hi - (l << k))
        return add(Qp, F(R, k))
    s = _lowsplit(E, k)
    if s:
        a, H, _ = s
        return F(H, k - a) if k > a else H
    r = _relsplit(E, k)
    if r is not None:
        return r
    if (hi >> k) - (lo >> k) == 1:
        return _f01(E, k, lo >> k)
    if any(KIND[a] in ('F', 'GE') for a in atoms_of(E)):
        lo, hi = tight(E)
        if lo >> k == hi >> k:
            return lo >> k
        if (hi >> k) - (lo >> k) == 1:
            return _f01(E, k, lo >> k)
    # pull out multiples of 2^k (remainders truncated towards zero)
    q, r = {}, {}
    for m, c in E.d.items():
        if m == 0:
            qq, rr = c >> k, c & ((1 << k) - 1)
        elif c >= 0:
            qq, rr = c >> k, c & ((1 << k) - 1)
        else:
            qq, rr = -(-c >> k), -(-c & ((1 << k) - 1))
        if qq:
            q[m] = qq
        if rr:
            r[m] = rr
    if q:
        Qp, R = mk(q), mk(r)
        return add(Qp, F(R, k))
    # flatten a carry
    cp = _compound(E)
    if cp:
        a, c, A, s, off = cp
        if c == -1:
            return sub(-1, F(sub(-1, E), k))
        rest = sub(sub(E, pa(a)), off)
        E2 = add(A, scale(rest, 1 << s))
        if E2.__class__ is not int:
            # E = rest + floor(A/2^s) in [lo,hi]  =>  E2 in [2^s lo, 2^s hi + 2^s - 1]
            l, h = lo << s, (hi << s) + (1 << s) - 1
            la, ha = interval(A)
            lr, hr = interval(rest)
            l, h = max(l, la + (lr << s)), min(h, ha + (hr << s))
            n = interval(E2)
            if l > n[0] or h < n[1]:
                register(E2, max(l, n[0]), min(h, n[1]))
        return F(E2, k + s)
    lead = max(m for m in E.d if m)
    if E.d[lead] < 0:
        return sub(-1, F(sub(-1, E), k))
    R = raw(E)
    if R.__class__ is int:
        return R >> k
    if R != E:
        register(R, lo, hi)
        return F(R, k)
    a = atom('F', (E.key(), k), lo >> k, hi >> k)
    return pa(a)


def _relsplit(E, k):
    """E mentions g = [D >= 0] and D itself: if the floor is known on both sides of g, it is linear in g"""
    for m in E.d:
        t = MONO[m]
        if len(t) == 1 and KIND[t[0][0]] == 'GE':
            a = t[0][0]
            D = fpoly(DATA[a])
            if max(D.d) not in E.d:
                continue
            x1, x0 = set_atom(E, a, 1), set_atom(E, a, 0)
            dl, dh = interval(D)
            l1, h1 = _rel(x1, D, 0, dh, *interval(x1))
            l0, h0 = _rel(x0, D, dl, -1, *interval(x0))
            if l1 >> k == h1 >> k and l0 >> k == h0 >> k:
                return add(scale(pa(a), (l1 >> k) - (l0 >> k)), l0 >> k)
    return None


def flag(D):
    """[D >= 0] as a carry: a comparison that may be used in further arithmetic"""
    g = GE(D)
    if g.__class__ is int or D.__class__ is int:
        return g
    l, h = interval(D)
    k = max((-l - 1).bit_length() if l < 0 else 0, h.bit_length())
    for z, E, o in ((g, D, -1), (sub(1, g), sub(-1, D), -1)):
        a = linear_atom(z)
        if a is not None and KIND[a] in ('GE', 'EQ') and z == pa(a) and a not in PROV and len(D.d) < 400:
            PROV[a] = (raw(E), k, o)
            break
    return g


def _f01(E, k, flo):
    g = GE(sub(E, (flo + 1) << k))
    a = linear_atom(g)
    if a is not None and KIND[a] in ('GE', 'EQ') and (a not in PROV or PROV[a][1] > k):
        PROV[a] = (raw(E), k, flo)
    if a is None and g.__class__ is not int:
        a = linear_atom(sub(1, g))
        if a is not None and KIND[a] in ('GE', 'EQ') and (a not in PROV or PROV[a][1] > k):
            PROV[a] = (raw(sub(-1, E)), k, -flo - 2)
    return add(g, flo)


def _bsplit(E, b, f):
    E1, E0 = set_atom(E, b, 1), set_atom(E, b, 0)
    r1, r0 = f(E1), f(E0)
    if (r1 == r0):
        return r1
    r1, r0 = elim(r1), elim(r0)
    return add(pmul(pa(b), sub(r1, r0)), r0)


def M(E, k):
    """E mod 2^k"""
    if E.__class__ is int:
        return E & ((1 << k) - 1)
    r = sub(E, scale(F(E, k), 1 << k))
    if r.__class__ is not int:
        if k == 1 and len(E.d) == 1:
            a = linear_atom(E)
            if a is not None and _single_f(a):
                return bv(r, False)
        lo, hi = interval(r)
        if lo < 0 or hi >= 1 << k:
            register(r, max(lo, 0), min(hi, (1 << k) - 1))
    return r


# ---- predicates ------------------------------------------------------------------
def complete(x):
    """replace complete limb sums by the value of the array"""
    if x.__class__ is int:
        return x
    for m in list(x.d):
        t = MONO[m]
        if len(t) == 1 and t[0][1] == 1 and t[0][0] in LIMB:
            A, i = LIMB[t[0][0]]
            n, r = N[A.kind], RAD[A.kind]
            if i != n - 1:
                continue
            c = x.d.get(m, 0)
            sh = r * (n - 1)
            if c == 0 or c % (1 << sh):
                continue
            c >>= sh
            if all(x.d.get(amono(A.limbs[j]), 0) == c << (r * j) for j in range(n)):
                d = dict(x.d)
                for j in range(n):
                    del d[amono(A.limbs[j])]
                v = amono(A.val)
                d[v] = d.get(v, 0) + c
                x = mk(d)
                if x.__class__ is int:
                    return x
    return x


_gememo = {}


def GE(D):
    if D.__class__ is int:
        return 1 if D >= 0 else 0
    k = D.key()
    r = _gememo.get(k)
    if r is None:
        r = _GE(D)
        if len(TABLES) == 1:
            _gememo[k] = r
    return r


def _bytetop(D):
    """x + c*byte - K >= 0 where any nonzero byte decides"""
    best = None
    for m, c in D.d.items():
        t = MONO[m]
        if c > 0 and len(t) == 1 and t[0][1] == 1 and KIND[t[0][0]] == 'byte' and (best is None or c > best[1]):
            best = m, c, t[0][0]
    if best is None:
        return None
    m, c, a = best
    d0 = mk({n: x for n, x in D.d.items() if n != m})
    if d0.__class__ is int or a in atoms_of(d0) or interval(add(d0, c))[0] < 0:
        return None
    return sub(1, pmul(EQ(pa(a)), sub(1, GE(d0))))


def _canon_range(D):
    """N - VAL(a) == 0 where a is the canonical representative of N: N < q"""
    if len(D.d) < 2:
        return None
    for m, c in D.d.items():
        t = MONO[m]
        if c in (1, -1) and len(t) == 1 and t[0][1] == 1 and KIND[t[0][0]] == 'VAL':
            A = VALOF[t[0][0]]
            if not A.canon:
                continue
            N = scale(mk({n: x for n, x in D.d.items() if n != m}), -c)
            if N.__class__ is int or any(KIND[z] in ('VAL', 'L', 'F', 'M') for z in atoms_of(N)):
                continue
            if interval(N)[0] < 0:
                continue
            q = MOD[A.kind]
            r = A.res
            if UNNAME[0]:
                r = UNNAME[0](A.kind, r)
            if rnorm(sub(N, r), q) == 0:
                return sub(1, GE(sub(N, q)))
    return None


UNNAME = [None]


def _decide_split(D):
    """a sign decided on both sides of one boolean atom"""
    for m, c in D.d.items():
        t = MONO[m]
        if len(t) == 1 and BOOL[t[0][0]]:
            d0 = mk({n: x for n, x in D.d.items() if n != m})
            if any(t[0][0] == a for n in d0.d for a, _ in MONO[n]) if d0.__class__ is not int else False:
                continue
            r = []
            for z in (d0, add(d0, c)):
                lo, hi = interval(z)
                if lo < 0 <= hi:
                    break
                r.append(1 if lo >= 0 else 0)
            if len(r) == 2:
                return add(r[0], scale(pa(t[0][0]), r[1] - r[0]))
    return None


def _zero_split(D):
    """a sign decided on both sides of [v = 0], where v is a canonical scalar that D mentions too"""
    for z in atoms_of(D):
        if KIND[z] == 'VAL' and VALOF[z].canon and VALOF[z].kind == 'S' and amono(z) in D.d:
            s = find_atom('SZ', key(VALOF[z].res))
            if s is None or amono(s) not in D.d:
                continue
            d1 = set_atom(sub(D, scale(pa(z), D.d[amono(z)])), s, 1)
            if z in (atoms_of(d1) if d1.__class__ is not int else ()):
                continue
            r = []
            for x in (set_atom(D, s, 0), d1):
                lo, hi = interval(x)
                if lo < 0 <= hi:
                    break
                r.append(1 if lo >= 0 else 0)
            if len(r) == 2:
                return add(r[0], scale(pa(s), r[1] - r[0]))
    return None


def _carry_split(D):
    """the second carry (borrow) of a two-step addition: [x + c - 2^k*[x >= 2^k] >= 2^k] = [x + c >= 2^k] - [x >= 2^k]"""
    for m, c in D.d.items():
        t = MONO[m]
        if len(t) != 1 or KIND[t[0][0]] not in ('GE', 'EQ') or c in (1, -1):
            continue
        g = t[0][0]
        d0 = mk({n: x for n, x in D.d.items() if n != m})
        if d0.__class__ is int or g in atoms_of(d0):
            continue
        X = fpoly(DATA[g])
        if KIND[g] == 'EQ':   # a one-sided equality is a comparison
            xl, xh = interval(X)
            if xl >= 0:
                X = neg(X)
            elif xh > 0:
                continue
        for dead, live, cond, name in ((add(d0, c), d0, X, pa(g)), (d0, add(d0, c), sub(-1, X), sub(1, pa(g)))):
            r = None
            if interval(dead)[1] < 0 and interval(sub(live, cond))[0] >= 0:
                r = sub(flag(live), name)
            elif interval(dead)[0] >= 0 and interval(add(live, cond))[1] < 0:
                r = add(flag(live), name)
            if r is not None:
                if r.__class__ is not int:
                    register(r, 0, 1)
                return r
    return None


def _excl(x, y):
    """two 0/1 values that exclude each other"""
    s = add(x, y)
    return s.__class__ is not int and len(s.d) < len(x.d) + len(y.d) and is01(x) and is01(y) and is01(s)


def _GE(D):
    lo, hi = interval(D)
    if lo >= 0:
        return 1
    if hi < 0:
        return 0
    if is_boolpoly(D):
        r = truth(D, lambda v: 1 if v >= 0 else 0)
        if r is not None:
            return r
    b = _nonlin_bool(D)
    if b is not None:
        return _bsplit(D, b, GE)
    D2 = complete(raw(D))
    if D2 != D:
        if D2.__class__ is not int:
            register(D2, lo, hi)
        return GE(D2)
    r = _decide_split(D)
    if r is not None:
        return r
    r = _zero_split(D)
    if r is not None:
        return r
    r = _carry_split(D)
    if r is not None:
        return r
    r = _bytetop(D)
    if r is not None:
        return r
    g = content(D)
    if g > 1:
        return GE(mk({m: (c // g) for m, c in D.d.items()}))   # floor on the constant
    if len(D.d) <= 2:
        c0 = const_part(D)
        w = linear_atom(sub(D, c0))
        if w is not None and KIND[w] == 'F':
            A, s = fpoly(DATA[w][0]), DATA[w][1]
            return GE(add(A, c0 << s))
    cp = _compound(D)
    if cp:
        a, c, A, s, off = cp
        if c == 1:
            rest = sub(sub(D, pa(a)), off)
            E2 = add(A, scale(rest, 1 << s))
        else:   # rest - F(A) >= 0 <=> A < 2^s (rest+1)
            rest = add(add(D, pa(a)), off)
            E2 = sub(sub(scale(add(rest, 1), 1 << s), 1), A)
        if E2.__class__ is not int:
            l, h = lo << s, (hi << s) + (1 << s) - 1
            la, ha = interval(A)
            lr, hr = interval(rest)
            if c == 1:
                l, h = max(l, la + (lr << s)), min(h, ha + (hr << s))
            n = interval(E2)
            if l > n[0] or h < n[1]:
                register(E2, max(l, n[0]), min(h, n[1]))
        return GE(E2)
    r = _relsplit(D, max(abs(lo), abs(hi)).bit_length() + 1)
    if r is not None:
        return add(r, 1)
    s = _lowsplit(D, max(val2(c) for c in D.d.values()))
    if s:
        return GE(s[1])
    if any(KIND[a] in ('F', 'GE', 'VAL', 'L') for a in atoms_of(D)):
        lo, hi = tight(D)
        if lo >= 0:
            return 1
        if hi < 0:
            return 0
    if lo >= -1:
        return sub(1, EQ(add(D, 1)))
    if hi <= 0:
        return EQ(D)
    lead = max(m for m in D.d if m)
    if D.d[lead] < 0:
        return sub(1, GE(sub(-1, D)))
    return pa(atom('GE', D.key(), 0, 1, True))


def truth(x, f, limit=6):
    """apply f to every value of a polynomial over boolean atoms -> multilinear polynomial"""
    ats = sorted(atoms_of(x))
    if len(ats) > limit:
        return None

    def rec(y, i):
        if y.__class__ is int:
            return f(y)
        if i == len(ats):
            return f(y)
        a = ats[i]
        r1, r0 = rec(set_atom(y, a, 1), i + 1), rec(set_atom(y, a, 0), i + 1)
        return add(pmul(pa(a), sub(r1, r0)), r0)
    return rec(x, 0)


_eqmemo = {}


def EQ(D):
    if D.__class__ is int:
        return 1 if D == 0 else 0
    k = D.key()
    r = _eqmemo.get(k)
    if r is None:
        r = _EQ(D)
        if len(TABLES) == 1:
            _eqmemo[k] = r
    return r


def _EQ(D):
    lo, hi = interval(D)
    if lo > 0 or hi < 0:
        return 0
    if lo == hi == 0:
        return 1
    if is_boolpoly(D):
        r = truth(D, lambda v: 1 if v == 0 else 0, 12)
        if r is not None:
            return r
        if lo >= 0 and hi <= 1:
            return sub(1, D)
        if lo >= -1 and hi <= 0:
            return add(1, D)
    b = _nonlin_bool(D)
    if b is not None:
        return _bsplit(D, b, EQ)
    D2 = complete(raw(D))
    if D2 != D:
        if D2.__class__ is not int:
            register(D2, lo, hi)
        return EQ(D2)
    r = _canon_range(D)
    if r is not None:
        return r
    g = content(D)
    if g > 1:
        c0 = D.d.get(0, 0)
        if c0 % g:
            return 0
        return EQ(mk({m: c // g for m, c in D.d.items()}))
    if lo >= 0 and hi <= 1:
        return sub(1, bv(D))
    if lo >= -1 and hi <= 0:
        return add(1, neg(bv(neg(D))))
    a = linear_atom(D)
    if a is None:
        a = linear_atom(neg(D))
    if a is not None:
        kd = KIND[a]
        if kd == 'O':
            return _eq_or(DATA[a])
        if kd == 'X' and len(DATA[a]) == 2:
            x, y = [fpoly(z) for z in DATA[a]]
            return EQ(sub(x, y))
        if kd == 'CMP':
            return EQ(fpoly(DATA[a]))
        if kd == 'VAL' and VALOF[a].canon:
            return fz(VALOF[a]) if VALOF[a].kind == 'F' else pa(atom('SZ', key(VALOF[a].res), 0, 1, True))
    # canonical value against anything congruent to it
    vs = [z for z in atoms_of(D) if KIND[z] == 'VAL' and VALOF[z].canon and D.d.get(amono(z), 0) in (1, -1)]
    if len(vs) == 2:
        A, B = VALOF[vs[0]], VALOF[vs[1]]
        if A.kind == B.kind == 'F' and D == sub(pa(vs[0]), pa(vs[1])) or D == sub(pa(vs[1]), pa(vs[0])):
            return fzres(radd(A.res, scale(B.res, -1), P)) if A.kind == 'F' else \
                _szres(radd(A.res, scale(B.res, -1), Q))
    for z in vs:
        A = VALOF[z]
        c = D.d[amono(z)]
        W = scale(sub(D, scale(pa(z), c)), -c)      # D = c*(VAL - W)
        if z in atoms_of(W):
            continue
        diff = radd(to_res(W, A.kind), scale(A.res, -1), MOD[A.kind])
        if diff == 0:
            l, h = interval(W)
            r = sub(1, GE(sub(W, MOD[A.kind])))
            if l < 0:
                r = vmul(r, GE(W))
            return r
    lead = max(m for m in D.d if m)
    if D.d[lead] < 0:
        return EQ(neg(D))
    return pa(atom('EQ', D.key(), 0, 1, True))


def _szres(r):
    if r.__class__ is int:
        return 1 if r % Q == 0 else 0
    return pa(atom('SZ', r.key(), 0, 1, True))


def _eq_or(members):
    ms = [fpoly(z) for z in members]
    # all limbs of a canonical array
    ats = [linear_atom(z) for z in ms]
    if all(a is not None and a in LIMB for a in ats):
        A = LIMB[ats[0]][0]
        if A.canon and {LIMB[a][1] for a in ats} == set(range(N[A.kind])) and all(LIMB[a][0] is A for a in ats):
            return fz(A) if A.kind == 'F' else _szres(A.res)
    r = 1
    if len(ms) > 20:
        return pa(atom('EQ', pa(find_atom('O', members)).key(), 0, 1, True))
    for z in ms:
        r = pmul(r, bv(EQ(z)))
    return r


# ---- residues -----------------------------------------------------------------------
def rnorm(x, mod):
    if x.__class__ is int:
        return x % mod
    return mk({m: c % mod for m, c in x.d.items() if c % mod})


def radd(x, y, mod):
    return rnorm(add(x, y), mod)


def mono_red(m, mod):
    """exponents: x^p = x"""
    t = MONO[m]
    for a, e in t:
        if e >= mod:
            return mono(tuple((a, (e - 1) % (mod - 1) + 1) for a, e in t))
    return m


def rmul(x, y, mod):
    r = rnorm(pmul(x, y), mod)
    if r.__class__ is not int and any(e >= mod for m in r.d for _, e in MONO[m]):
        d = {}
        for m, c in r.d.items():
            m = mono_red(m, mod)
            d[m] = (d.get(m, 0) + c) % mod
        r = mk({m: c for m, c in d.items() if c})
    return r


def to_res(x, kind):
    """integer polynomial -> residue polynomial: limbs and values of arrays become residues"""
    mod = MOD[kind]
    x = rnorm(x, mod)
    if x.__class__ is int:
        return x
    mp = {}
    for a in atoms_of(x):
        if a in LIMB and LIMB[a][1] == 0 and LIMB[a][0].kind == kind:
            A = LIMB[a][0]
            rep = A.res
            for i in range(1, N[kind]):
                rep = sub(rep, scale(pa(A.limbs[i]), 1 << (RAD[kind] * i)))
            mp[a] = rep
        elif KIND[a] == 'VAL' and VALOF[a].kind == kind:
            mp[a] = VALOF[a].res
    if mp:
        x = rnorm(subst(x, mp, lambda u, v: rmul(u, v, mod)), mod)
    return x


def fz(A):
    return fzres(A.res)


FZ_HOOK = [None]


def fzres(r):
    """[r == 0 in GF(p)]"""
    r = rnorm(r, P)
    if r.__class__ is int:
        return 1 if r == 0 else 0
    if FZ_HOOK[0]:
        h = FZ_HOOK[0](r)
        if h is not None:
            return h
    bs = [a for a in atoms_of(r) if BOOL[a]]
    if bs and len(bs) <= 4:
        b = bs[0]
        x1, x0 = fzres(set_atom(r, b, 1)), fzres(set_atom(r, b, 0))
        if x1 == x0:
            return x1
        return add(pmul(pa(b), sub(x1, x0)), x0)
    m = min(m for m in r.d)
    inv = pow(r.d[m], -1, P)
    r = rnorm(scale(r, inv), P)
    return pa(atom('FZ', r.key(), 0, 1, True))


# ---- machine words ---------------------------------------------------------------------
def norm(x, w, signed=False):
    """the exact machine value of x (a polynomial known modulo 2^w)"""
    lo = -(1 << (w - 1)) if signed else 0
    hi = lo + (1 << w) - 1
    if x.__class__ is int:
        return ((x - lo) & ((1 << w) - 1)) + lo
    l, h = interval(x)
    if l >= lo and h <= hi:
        return x
    if (l - lo) >> w != (h - lo) >> w:
        l, h = tight(x)
        if l >= lo and h <= hi:
            return x
    if (l - lo) >> w == (h - lo) >> w:
        return sub(x, ((l - lo) >> w) << w)
    r = sub(x, scale(F(sub(x, lo), w), 1 << w))
    if r.__class__ is not int:
        l, h = interval(r)
        if l < lo or h > hi:
            register(r, max(l, lo), min(h, hi))
    return r


def mask_of(y, w):
    """y == -B or (2^w-1)*B with B boolean -> B"""
    if y.__class__ is int:
        if y == 0:
            return 0
        if y in (-1, (1 << w) - 1):
            return 1
        return None
    lo, hi = interval(y)
    if lo >= -1 and hi <= 0:
        return neg(y)
    f = (1 << w) - 1
    if lo >= 0 and hi <= f and all(c % f == 0 for c in y.d.values()):
        B = mk({m: c // f for m, c in y.d.items()})
        if is01(B):
            return B
    return None


def _bools(x):
    return [a for a in atoms_of(x) if BOOL[a]] if x.__class__ is not int else []


_bsd = [0]


def _bitsplit(x, y, w, f):
    if _bsd[0] > 8:
        return None
    _bsd[0] += 1
    try:
        return _bitsplit0(x, y, w, f)
    finally:
        _bsd[0] -= 1


def _bitsplit0(x, y, w, f):
    bs = _bools(x) + _bools(y)
    if bs and len(set(bs)) <= 4:
        b = bs[0]
        r1 = f(set_atom(x, b, 1), set_atom(y, b, 1), w)
        r0 = f(set_atom(x, b, 0), set_atom(y, b, 0), w)
        if r1 == r0:
            return r1
        r1, r0 = elim(r1), elim(r0)
        return add(pmul(pa(b), sub(r1, r0)), r0)
    return None


def _disjoint(x, y):
    for u, v in ((x, y), (y, x)):
        lu, hu = interval(u)
        lv, hv = interval(v)
        if lu >= 0 and lv >= 0:
            t = min(val2(c) for c in v.d.values()) if v.__class__ is not int else (val2(v) if v else 999)
            if hu < 1 << t:
                return True
    return False


def uns(x, w):
    return norm(x, w, False)


def band(x, y, w):
    if x.__class__ is int:
        x, y = y, x
    if x.__class__ is int:
        return x & y & ((1 << w) - 1)
    if x == y:
        return x
    for u, v in ((x, y), (y, x)):
        B = mask_of(v, w)
        if B is not None:
            return vmul(B, uns(u, w))
    x, y = uns(x, w), uns(y, w)
    if x.__class__ is int:
        x, y = y, x
    if x.__class__ is int:
        return x & y
    if y.__class__ is int:
        lo, hi = interval(x)
        y &= (1 << hi.bit_length()) - 1
        out = 0
        i = 0
        while y >> i:
            if (y >> i) & 1 == 0:
                i += 1
                continue
            j = i
            while (y >> j) & 1:
                j += 1
            out = add(out, scale(M(F(x, i), j - i), 1 << i))
            i = j
        return out
    if pmul(x, y) == 0 or _disjoint(x, y):
        return 0
    if is01(x) and is01(y):
        return vmul(x, y)
    r = _bitsplit(x, y, w, band)
    if r is not None:
        return r
    hi = min(interval(x)[1], interval(y)[1])
    return pa(atom('A', frozenset((raw(x).key(), raw(y).key())), 0, hi))


def bor(x, y, w):
    if x.__class__ is int:
        x, y = y, x
    if x.__class__ is int:
        return (x | y) & ((1 << w) - 1)
    if x == y or (y.__class__ is int and y == 0):
        return x
    x, y = uns(x, w), uns(y, w)
    if x.__class__ is int:
        x, y = y, x
    if x.__class__ is int:
        return x | y
    if y.__class__ is int:
        return sub(add(x, y), band(x, y, w))
    if _disjoint(x, y) or pmul(x, y) == 0 or _excl(x, y):
        return vadd(x, y)
    if is01(x) and is01(y):
        return sub(add(bv(x), bv(y)), vmul(x, y))
    B = mask_of(x, w)
    if B is None:
        B = mask_of(y, w)
        if B is not None:
            x, y = y, x
    if B is not None:       # full*B | y = full*B + (1-B)*y
        return add(x, vmul(sub(1, B), y))
    r = _bitsplit(x, y, w, bor)
    if r is not None:
        return r
    s = set()
    hi = 0
    for u in (x, y):
        a = linear_atom(u)
        if a is not None and KIND[a] == 'O':
            s |= DATA[a]
        else:
            s.add(raw(u).key())
        hi = max(hi, interval(u)[1])
    if len(s) == 1:
        return fpoly(next(iter(s)))
    return pa(atom('O', frozenset(s), 0, (1 << hi.bit_length()) - 1))


def bxor(x, y, w):
    if x.__class__ is int:
        x, y = y, x
    full = (1 << w) - 1
    if x.__class__ is int:
        return (x ^ y) & full
    if x == y:
        return 0
    if y.__class__ is int and y == 0:
        return x
    if x.__class__ is not int and y.__class__ is not int and _excl(x, y):
        return vadd(x, y)
    for u, v in ((x, y), (y, x)):
        B = mask_of(v, w)
        if B is not None:
            u = uns(u, w)
            if B.__class__ is int:
                return sub(full, u) if B else u
            return add(elim(u), vmul(B, sub(full, scale(u, 2))))
    x, y = uns(x, w), uns(y, w)
    if x.__class__ is int:
        x, y = y, x
    if x.__class__ is int:
        return x ^ y
    if y.__class__ is int:
        return sub(add(x, y), scale(band(x, y, w), 2))
    if is01(x) and is01(y):
        return sub(add(bv(x), bv(y)), scale(vmul(x, y), 2))
    if _disjoint(x, y) or pmul(x, y) == 0:
        return vadd(x, y)
    s = set()
    hi = 0
    for u in (x, y):
        a = linear_atom(u)
        if a is not None and KIND[a] == 'X':
            s ^= DATA[a]
            hi = max(hi, HI[a])
        else:
            r = _bools(u)
            if r:
                r = _bitsplit(x, y, w, bxor)
                if r is not None:
                    return r
            s ^= {raw(u).key()}
            hi = max(hi, interval(u)[1])
    if not s:
        return 0
    if len(s) == 1:
        return fpoly(next(iter(s)))
    return pa(atom('X', frozenset(s), 0, (1 << hi.bit_length()) - 1))


def bnot01(b):
    return sub(1, b)


def conj(a, b):
    if a.__class__ is int or b.__class__ is int:
        return pmul(a, b)
    return pmul(bv(a), bv(b))


# ---- concrete evaluation of abstract values (self-test of the domain only) ------------------
def evalp(x, env):
    if x.__class__ is int:
        return x
    r = 0
    for m, c in x.d.items():
        for a, e in MONO[m]:
            c *= evala(a, env)**e
        r += c
    return r


def evala(a, env):
    if a in env:
        return env[a]
    k, d = KIND[a], DATA[a]
    if k == 'F':
        v = evalp(fpoly(d[0]), env) >> d[1]
    elif k == 'M':
        v = evalp(fpoly(d[0]), env) & ((1 << d[1]) - 1)
    elif k == 'GE':
        v = 1 if evalp(fpoly(d), env) >= 0 else 0
    elif k in ('EQ',):
        v = 1 if evalp(fpoly(d), env) == 0 else 0
    elif k == 'BV':
        v = evalp(fpoly(d), env)
    elif k == 'VAL':
        A = VALOF[a]
        v = sum(env[l] << (RAD[A.kind] * i) for i, l in enumerate(A.limbs))
    elif k in 'AOX':
        v = None
        for z in d:
            z = evalp(fpoly(z), env)
            v = z if v is None else (v & z if k == 'A' else v | z if k == 'O' else v ^ z)
    else:
        raise KeyError(show_atom(a))
    env[a] = v
    return v
