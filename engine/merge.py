"""Joining partitions where a branch's alternatives meet again.

After an undecided branch every alternative is followed to the branch's immediate post-dominator.  When the
states arriving there differ only in scalar values that are cheap to combine, they are replaced by one state in
which a differing value is  sum(path condition * value).  Otherwise they stay separate partitions."""
from poly import *
from domain import *
from mem import *
import cfg

MAXDIFF = 80
MAXTERMS = 6


class NoMerge(Exception):
    pass


def sub_rep(x, rep):
    if not rep:
        return x
    if x.__class__ is Poly:
        if any(a in rep for a in atoms_of(x)):
            return subst(x, rep)
        return x
    if x.__class__ is Ptr:
        if x.o.__class__ is Poly:
            return Ptr(x.a, sub_rep(x.o, rep))
        return x
    if x.__class__ is Fat:
        return Fat(sub_rep(x.p, rep), sub_rep(x.m, rep))
    if x.__class__ is list:
        return [sub_rep(y, rep) for y in x]
    return x


def same(x, y):
    if x is y:
        return True
    if x.__class__ is not y.__class__:
        return False
    if x.__class__ is Ptr:
        return x.a == y.a and same(x.o, y.o)
    if x.__class__ is Fat:
        return same(x.p, y.p) and same(x.m, y.m)
    if x.__class__ is list:
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if x.__class__ is Blob:
        return x.size == y.size and len(x.cells) == len(y.cells) and all(
            a[:2] == b[:2] and same(a[2], b[2]) for a, b in zip(x.cells, y.cells))
    try:
        return bool(x == y)
    except Exception:
        return False


def scalar(x):
    return x.__class__ is int or x.__class__ is Poly


def combine(vals, ws):
    """sum(w_i * v_i), the w_i being a partition of one"""
    if all(same(v, vals[0]) for v in vals):
        return vals[0]
    if not all(scalar(v) for v in vals):
        raise NoMerge('value')
    r = vals[-1]
    tot = 0
    if len(vals) == 2 and is01(ws[0]) and len(ws[0].d) <= 2:
        p, q = guarded(vals[0], vals[1], ws[0]), guarded(vals[1], vals[0], sub(1, ws[0]))
        if p or q:
            # v0 = r0 + sum c*carry,  v1 = r1 + sum c*carry'
            v0, v1 = vals
            for a, c, t in p:
                v0, tot = sub(v0, scale(pa(a), c)), add(tot, scale(t, c))
            for a, c, t in q:
                v1, tot = sub(v1, scale(pa(a), c)), add(tot, scale(t, c))
            d = sub(v0, v1)
            d = pmul(ws[0], d) if d.__class__ is Poly else scale(ws[0], d)
            if d.__class__ is Poly and len(d.d) > MAXTERMS:
                raise NoMerge('size')
            return add(v1, add(d, tot))
    for v, w in zip(vals[:-1], ws[:-1]):
        d = sub(v, vals[-1])
        tot = add(tot, pmul(w, d) if d.__class__ is Poly else scale(w, d))
    if tot.__class__ is Poly and len(tot.d) > MAXTERMS:
        raise NoMerge('size')
    return add(r, tot)


def guarded(v, other, w):
    """carries [D >= 0] of v that other lacks, with w*[D >= 0] written as one comparison: D = X + c, X < 2^k
    the part that moves and c the constant, gives  w*[D >= 0] = [X - 2^k + w*(c + 2^k) >= 0]"""
    out = []
    if v.__class__ is not Poly:
        return out
    have = atoms_of(other) if other.__class__ is Poly else ()
    for m, c in v.d.items():
        t = MONO[m]
        if len(t) != 1 or t[0][1] != 1 or KIND[t[0][0]] != 'GE' or t[0][0] in have:
            continue
        D = fpoly(DATA[t[0][0]])
        k0 = D.d.get(0, 0)
        X = sub(D, k0)
        lo, hi = interval(X)
        if lo < 0 or hi <= 0:
            continue
        top = 1 << hi.bit_length()
        if k0 + top <= 0:
            continue
        out.append((t[0][0], c, GE(add(sub(X, top), scale(w, k0 + top)))))
    return out


def merge(ip, base, sts, J):
    """one state standing for sts (arrived at block J of the frame of base), or NoMerge"""
    depth = len(base.frames)
    if any(len(s.frames) != depth or s.frames[-1].bb != J for s in sts):
        raise NoMerge('frames')
    n0 = len(base.conds)
    ws = []
    for s in sts:
        w = 1
        if len(s.events) != len(base.events) or len(s.env) != len(base.env):
            raise NoMerge('effects')
        for c in s.conds[n0:]:
            c = ip.apply_known(base, c)
            if any(KIND[a] == 'len' for a in deep_atoms(c)):
                raise NoMerge('length')
            w = pmul(w, c) if w.__class__ is Poly and c.__class__ is Poly else scale(c, w) if w.__class__ is int else scale(w, c)
            if w.__class__ is Poly and len(w.d) > 64:
                raise NoMerge('condition')
        ws.append(w)
    tot = 0
    for w in ws:
        tot = add(tot, w)
    if tot.__class__ is Poly and len(tot.d) > MAXTERMS:
        raise NoMerge('condition')
    full = tot == 1
    ws[-1] = sub(1, sum_(ws[:-1])) if full else ws[-1]
    out = base.fork()
    out.frames[-1].bb = J
    ndiff = 0
    owner = {}
    for k in range(depth):
        fb = base.frames[k]
        code = fb.body
        blk = J if k == depth - 1 else base.frames[k + 1].target
        live = cfg.live_in(ip, fb.inst, blk) if blk is not None else set(range(len(fb.r)))
        for l, v0 in enumerate(fb.r):
            vs = [s.frames[k].r[l] for s in sts]
            if code.kind[l] == 'm':
                if v0 is not None:
                    owner[v0] = (k, l, l in live)
                if all(v == v0 for v in vs):
                    continue
                if l in live:
                    raise NoMerge('new object')
                continue
            if k < depth - 1 or l not in live:
                if l not in live:
                    continue
                if all(same(v, sub_rep(v0, s.rep)) for v, s in zip(vs, sts)):
                    continue
                raise NoMerge('outer register')
            if all(same(v, sub_rep(v0, s.rep)) for v, s in zip(vs, sts)):
                continue
            t = ip.p.T[code.ltys[l]]
            if vs[0].__class__ is list or not ip.p.width(code.ltys[l]):
                raise NoMerge('aggregate')
            out.frames[k].r[l] = combine(vs, ws)
            ndiff += 1
    for i, a0 in base.mem.m.items():
        als = [s.mem.m.get(i) for s in sts]
        if all(a is a0 for a in als):
            continue
        if i in owner and not owner[i][2]:
            out.mem.w(i).cells = {}
            continue
        if any(a is None for a in als):
            raise NoMerge('freed')
        for a, s in zip(als, sts):
            if a is a0:
                continue
            if not same(a.size, sub_rep(a0.size, s.rep)):
                raise NoMerge('size')
            if (a.segs or a0.segs) and not segs_same(a.segs, a0.segs, s.rep):
                raise NoMerge('segments')
        keys = set(a0.cells)
        for a in als:
            keys |= set(a.cells)
        ty_ok = None
        for o in keys:
            c0 = a0.cells.get(o)
            cs = [a.cells.get(o) for a in als]
            if c0 is not None and all(c is not None and c[0] == c0[0] and same(c[1], sub_rep(c0[1], s.rep))
                                      for c, s in zip(cs, sts)):
                continue
            if c0 is None and a0.sym is not None:
                raise NoMerge('input bytes')
            if any(c is None for c in cs) or len({c[0] for c in cs}) != 1:
                raise NoMerge('cells')
            if ty_ok is None:
                ty_ok = i in owner and ip.p.leaves(base.frames[owner[i][0]].body.ltys[owner[i][1]]) is not None
            if not ty_ok:
                raise NoMerge('heap')
            out.mem.w(i).cells[o] = (cs[0][0], combine([c[1] for c in cs], ws))
            ndiff += 1
            if ndiff > MAXDIFF:
                raise NoMerge('too different')
    if not full and not ip.assume(out, tot):
        raise NoMerge('empty')
    ip.merges += 1
    return out


def sum_(ws):
    r = 0
    for w in ws:
        r = add(r, w)
    return r


def segs_same(a, b, rep):
    if a is b:
        return True
    if not a or not b or len(a) != len(b):
        return False
    for (o, x), (q, y) in zip(a, b):
        if not same(o, sub_rep(q, rep)):
            return False
        if isinstance(x, tuple) != isinstance(y, tuple):
            return False
        if isinstance(x, tuple):
            if x[:2] != y[:2] or not same(x[2], sub_rep(y[2], rep)) or not same(x[3], sub_rep(y[3], rep)):
                return False
        elif not same(x, sub_rep(y, rep)):
            return False
    return True


def deep_atoms(x, out=None):
    out = set() if out is None else out
    if x.__class__ is Poly:
        for a in atoms_of(x):
            if a in out:
                continue
            out.add(a)
            if KIND[a] in ('GE', 'EQ', 'BV'):
                deep_atoms(fpoly(DATA[a]), out)
            elif KIND[a] in ('F', 'M'):
                deep_atoms(fpoly(DATA[a][0]), out)
    return out
