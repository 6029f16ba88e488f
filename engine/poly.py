"""Interned atoms, monomials and integer polynomials (value-numbering domain, part 1).

A value is a Python int (known) or a Poly: an integer polynomial over atoms.  Atoms are
interned, so structural equality of polynomials is equality of value numbers.
"""
from math import gcd

P = 2**448 - 2**224 - 1
Q = 2**446 - 13818066809895115352007386748515426880336692474882178609894547503885

INF = float('inf')

# ---- atoms ---------------------------------------------------------------
KIND, DATA, LO, HI, BOOL = [], [], [], [], []
_atoms = {}


def atom(kind, data, lo, hi, isbool=False):
    k = (kind, data)
    a = _atoms.get(k)
    if a is not None:
        if lo is not None and (LO[a] is None or lo > LO[a]):
            LO[a] = lo
        if hi is not None and (HI[a] is None or hi < HI[a]):
            HI[a] = hi
        return a
    a = len(KIND)
    _atoms[k] = a
    KIND.append(kind)
    DATA.append(data)
    LO.append(lo)
    HI.append(hi)
    BOOL.append(isbool)
    return a


def find_atom(kind, data):
    return _atoms.get((kind, data))


# ---- monomials -----------------------------------------------------------
MONO = [()]
_monos = {(): 0}
_mm = {}


def mono(t):
    m = _monos.get(t)
    if m is None:
        m = len(MONO)
        _monos[t] = m
        MONO.append(t)
    return m


_am = {}


def amono(a):
    m = _am.get(a)
    if m is None:
        m = _am[a] = mono(((a, 1),))
    return m


_impl = {}


def related(a, b):
    """comparisons a = [D >= 0] and b = [E >= 0], from the ranges of the atoms alone:
    1 when a implies b (E - D >= 0), -1 when they exclude each other (D + E < 0)"""
    r = _impl.get((a, b))
    if r is None:
        D, E = _cmp(a), _cmp(b)
        r = 0
        if KIND[a] == KIND[b] == 'EQ' and len(DATA[a]) < 40 and _apart(DATA[a], DATA[b]):
            r = -1
        elif D and E and len(D) < 40 and len(E) < 40:
            if _low(E, D, -1, 1) >= 0:
                r = 1
            elif _low(E, D, -1, -1) > 0:
                r = -1
        _impl[(a, b)] = r
    return r


def _apart(D, E):
    """the same polynomial compared with two different constants"""
    d = dict(D)
    for m, c in E:
        d[m] = d.get(m, 0) - c
    k = d.pop(0, 0)
    return k != 0 and not any(d.values()) and not any(KIND[w] == 'byte' for m, c in D for w, e in MONO[m])


def _cmp(a):
    """D with a = [D >= 0]; an equality that can fail on one side only is such a comparison"""
    if KIND[a] == 'GE':
        return DATA[a]
    D = DATA[a]
    if len(D) < 40:
        if _low(D, (), 0, 1) >= 0:
            return [(m, -c) for m, c in D]
        if _low(D, (), 0, -1) >= 0:
            return D
    return None


def _low(E, D, sd, se):
    """a lower bound of se*E + sd*D"""
    d = {m: se * c for m, c in E}
    for m, c in D:
        d[m] = d.get(m, 0) + sd * c
    lo = d.pop(0, 0)
    for m, c in d.items():
        if c:
            l = h = 1
            for w, e in MONO[m]:
                if LO[w] is None or HI[w] is None or LO[w] < 0 or KIND[w] == 'byte':
                    return -INFTY       # (conditions on the input bytes stay independent atoms)
                l, h = l * LO[w] ** e, h * HI[w] ** e
            lo += c * l if c > 0 else c * h
    return lo


INFTY = 1 << 5000


def mmul(i, j):
    if i == 0:
        return j
    if j == 0:
        return i
    if i > j:
        i, j = j, i
    k = _mm.get((i, j))
    if k is None:
        d = dict(MONO[i])
        for a, e in MONO[j]:
            d[a] = 1 if BOOL[a] else d.get(a, 0) + e
        g = [a for a in d if KIND[a] == 'GE' or KIND[a] == 'EQ']
        if len(g) > 1:
            for a in g:
                for b in g:
                    if b != a and b in d:
                        r = related(b, a)
                        if r < 0:
                            _mm[(i, j)] = -1
                            return -1
                        if r > 0:
                            d.pop(a, None)
                            break
        k = mono(tuple(sorted(d.items())))
        if len(_mm) > 3000000:
            _mm.clear()
        _mm[(i, j)] = k
    return k


class Poly:
    __slots__ = ('d', '_k', '_iv', '_h', '_gen')

    def __init__(self, d):
        self.d = d
        self._k = None
        self._iv = None
        self._gen = -1

    def key(self):
        k = self._k
        if k is None:
            k = self._k = frozenset(self.d.items())
        return k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or self.d == o.d)

    def __repr__(self):
        return show(self)


def mk(d):
    if not d:
        return 0
    if len(d) == 1 and 0 in d:
        return d[0]
    return Poly(d)


def pa(a):
    return Poly({amono(a): 1})


def is_c(x):
    return x.__class__ is int


def key(x):
    return x if x.__class__ is int else x.key()


def add(x, y):
    if x.__class__ is int:
        if y.__class__ is int:
            return x + y
        x, y = y, x
    if y.__class__ is int:
        if y == 0:
            return x
        d = dict(x.d)
        c = d.get(0, 0) + y
        if c:
            d[0] = c
        else:
            d.pop(0, None)
        return mk(d)
    if len(x.d) < len(y.d):
        x, y = y, x
    d = dict(x.d)
    for m, c in y.d.items():
        c += d.get(m, 0)
        if c:
            d[m] = c
        else:
            del d[m]
    return mk(d)


def scale(x, c):
    if x.__class__ is int:
        return x * c
    if c == 0:
        return 0
    if c == 1:
        return x
    return Poly({m: v * c for m, v in x.d.items()})


def neg(x):
    return scale(x, -1)


def sub(x, y):
    if y.__class__ is int:
        return add(x, -y)
    return add(x, scale(y, -1))


def pmul(x, y):
    """plain polynomial product (booleans idempotent)"""
    if x.__class__ is int:
        return scale(y, x)
    if y.__class__ is int:
        return scale(x, y)
    d = {}
    for m, c in x.d.items():
        for n, e in y.d.items():
            k = mmul(m, n)
            if k < 0:
                continue
            v = d.get(k, 0) + c * e
            if v:
                d[k] = v
            else:
                d.pop(k, None)
    return mk(d)


def atoms_of(x):
    if x.__class__ is int:
        return set()
    s = set()
    for m in x.d:
        for a, _ in MONO[m]:
            s.add(a)
    return s


def const_part(x):
    return x if x.__class__ is int else x.d.get(0, 0)


def is_boolpoly(x):
    """only boolean atoms"""
    if x.__class__ is int:
        return True
    for m in x.d:
        for a, _ in MONO[m]:
            if not BOOL[a]:
                return False
    return True


def linear_atom(x):
    """x == atom ?"""
    if x.__class__ is int or len(x.d) != 1:
        return None
    (m, c), = x.d.items()
    if c != 1:
        return None
    t = MONO[m]
    if len(t) == 1 and t[0][1] == 1:
        return t[0][0]
    return None


def set_atom(x, a, val):
    """x with atom a replaced by the integer val (any exponent)"""
    if x.__class__ is int:
        return x
    hit = False
    for m in x.d:
        for b, _ in MONO[m]:
            if b == a:
                hit = True
                break
        if hit:
            break
    if not hit:
        return x
    d = {}
    for m, c in x.d.items():
        t = MONO[m]
        e = 0
        for b, ee in t:
            if b == a:
                e = ee
        if e:
            if val == 0:
                continue
            c = c * val**e
            m = mono(tuple(p for p in t if p[0] != a))
        v = d.get(m, 0) + c
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return mk(d)


def split_atom(x, a):
    """x = x1*a + x0 for a boolean/linear atom a -> (x1, x0)"""
    d1, d0 = {}, {}
    for m, c in x.d.items():
        t = MONO[m]
        for b, e in t:
            if b == a:
                n = mono(tuple((bb, ee if bb != a else ee - 1) for bb, ee in t if bb != a or ee > 1))
                d1[n] = d1.get(n, 0) + c
                break
        else:
            d0[m] = c
    return mk(d1), mk(d0)


def subst(x, mp, mul=None):
    """plain substitution atom -> poly (no rebuilding of derived atoms)"""
    if x.__class__ is int:
        return x
    mul = mul or pmul
    if not any(a in mp for a in atoms_of(x)):
        return x
    keep = {}
    out = 0
    for m, c in x.d.items():
        t = MONO[m]
        if not any(a in mp for a, _ in t):
            keep[m] = c
            continue
        r = c
        rest = []
        for a, e in t:
            if a in mp:
                for _ in range(e):
                    r = mul(r, mp[a])
            else:
                rest.append((a, e))
        r = mul(r, Poly({mono(tuple(rest)): 1})) if rest else r
        out = add(out, r)
    return add(mk(keep), out)


def content(x):
    g = 0
    for m, c in x.d.items():
        if m:
            g = gcd(g, c)
            if g == 1:
                return 1
    return g


def show_atom(a, depth=2):
    k, d = KIND[a], DATA[a]
    if k == 'F':
        return 'F%d(%s)' % (d[1], show(fpoly(d[0]), depth - 1)) if depth > 0 else 'F%d#%d' % (d[1], a)
    if k in ('GE', 'EQ', 'BV'):
        return '%s(%s)' % (k, show(fpoly(d), depth - 1)) if depth > 0 else '%s#%d' % (k, a)
    if k == 'FZ':
        return 'FZ(%s)' % show(fpoly(d), depth - 1) if depth > 0 else 'FZ#%d' % a
    if isinstance(d, tuple):
        return '%s:%s' % (k, '.'.join(str(z)[:30] for z in d))
    return '%s:%s' % (k, str(d)[:60])


def fpoly(k):
    return k if k.__class__ is int else Poly(dict(k))


def show(x, depth=2, maxt=12):
    if x.__class__ is int:
        return str(x) if abs(x) < 10**9 else hex(x)
    out = []
    for i, (m, c) in enumerate(sorted(x.d.items())):
        if i >= maxt:
            out.append('...(%d terms)' % len(x.d))
            break
        s = '*'.join(show_atom(a, depth) + ('' if e == 1 else '^%s' % (e if e < 10**6 else hex(e))) for a, e in MONO[m])
        cs = str(c) if abs(c) < 10**7 else hex(c)
        out.append(s if c == 1 and s else (cs + ('*' + s if s else '')))
    return ' + '.join(out)
