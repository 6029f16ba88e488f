"""Folding of limb arrays into residues, and memoised function summaries."""
from poly import *
from domain import *
import domain as D_
from mem import *
from interp import *
import interp as I_

JUNK = ('F', 'M', 'L', 'GE', 'DIV')
NAMED = {}      # name atom -> residue polynomial


def name_res(kind, r, force=False):
    """give a large residue a name: r = c * NR"""
    if is_c(r):
        return r
    mod = MOD[kind]
    m0 = min(r.d)
    c = r.d[m0]
    n = rnorm(scale(r, pow(c, -1, mod)), mod)
    if len(n.d) == 1 and not force:
        return r
    a = atom('NR', (kind, n.key()), None, None)
    NAMED[a] = n
    return Poly({amono(a): c})


def unname(kind, r):
    mod = MOD[kind]
    while not is_c(r):
        mp = {a: NAMED[a] for a in atoms_of(r) if a in NAMED and not _highexp(r, a)}
        if not mp:
            return r
        r = rnorm(subst(r, mp, lambda u, v: rmul(u, v, mod)), mod)
    return r


def _highexp(r, a):
    return any(b == a and e > 8 for m in r.d for b, e in MONO[m])


_limby = {}


def _keyatoms(k):
    if k.__class__ is int:
        return
    for t in k:
        if t.__class__ is tuple:
            for a, e in MONO[t[0]]:
                yield a
        else:
            yield from _keyatoms(t)


def limby(a):
    """does a digit / comparison atom look inside a limb array (as opposed to an input byte)?"""
    r = _limby.get(a)
    if r is None:
        k = KIND[a]
        if k in ('L', 'VAL'):
            r = True
        elif k in ('F', 'M', 'DIV'):
            r = any(limby(z) for z in _keyatoms(DATA[a][0]))
        elif k in ('GE', 'EQ', 'BV', 'A', 'X', 'O'):
            r = any(limby(z) for z in _keyatoms(DATA[a]))
        else:
            r = False
        _limby[a] = r
    return r


def junk(r):
    if is_c(r):
        return False
    for a in atoms_of(r):
        k = KIND[a]
        if k == 'L':
            return True
        if k in JUNK and limby(a):
            return True
        if k == 'EQ' and any(KIND[z] == 'L' for z in atoms_of(fpoly(DATA[a]))):
            return True
    return False


def fold_vals(kind, vals):
    """16/14 limb values -> Arr, or None when they do not (yet) make up a residue"""
    if all(v.__class__ is int for v in vals):
        return None
    rad = RAD[kind]
    V = 0
    bs = []
    for i, v in enumerate(vals):
        if not isinstance(v, (int, Poly)):
            return None
        lo, hi = interval(v)
        if lo < 0 or hi >= 1 << 32:
            v = norm(v, 32)
            lo, hi = interval(v)
            if lo < 0 or hi >= 1 << 32:
                return None
        bs.append(hi)
        V = add(V, scale(v, 1 << (rad * i)))
    a = vals[0]
    r = to_res(V, kind)
    if junk(r):
        r = to_res(raw(V), kind)
        if junk(r):
            return None
    C = complete(raw(V))
    lo, hi = interval(C)
    l2, h2 = interval(V)
    lo, hi = max(lo, l2), min(hi, h2)
    if lo < 0 or hi >= MOD[kind]:
        l2, h2 = tight(C)
        lo, hi = max(lo, l2), min(hi, h2)
    canon = lo >= 0 and hi < MOD[kind] and all(b < 1 << rad for b in bs)
    if not is_c(r) and (len(r.d) > 64 or any(KIND[a] == 'byte' for a in atoms_of(r))):
        r = name_res(kind, r, True)
    if canon:
        return new_arr(kind, r, bs, lo, hi, True)
    if kind == 'S' and hi < 2 * MOD[kind] - 1:
        hi = 2 * MOD[kind] - 1      # a sound over-approximation; one summary per class of range
    k = ('fold', kind, tuple(key(v) for v in vals))
    A = _foldmemo.get(k)
    if A is None:
        A = _foldmemo[k] = new_arr(kind, r, bs, max(lo, 0), hi, False)
    return A


_foldmemo = {}
_argmemo = {}


def fold_memo(kind, vals):
    """fold the limbs of an argument about to be passed to a function"""
    for v in vals:
        if not isinstance(v, (int, Poly)):
            return None
    k = (kind, tuple(key(v) for v in vals), D_.GEN[0])
    A = _argmemo.get(k, 0)
    if A == 0:
        A = _argmemo[k] = fold_vals(kind, vals)
    return A


def limb_places(ip, ty, off=0):
    """[(offset, kind)] of limb arrays inside a sized type (structs, tuples, arrays; not behind pointers)"""
    c = ip.__dict__.setdefault('_lp', {}).get(ty)
    if c is None:
        c = ip._lp[ty] = _limb_places(ip, ty)
    return [(off + o, k) for o, k in c]


def _limb_places(ip, ty):
    p = ip.p
    k = p.is_limbs(ty)
    if k:
        return [(0, k)]
    if p.cls(ty) != 'm':
        return []
    t = p.T[ty]
    out = []
    if t['k'] == 'array':
        if t['len'] > 128:
            return []
        es = p.size(t['elem'])
        inner = limb_places(ip, t['elem'])
        for i in range(t['len']):
            out += [(i * es + o, kk) for o, kk in inner]
    elif t['k'] in ('tuple', 'closure') or (t['k'] == 'adt' and t['adt'] == 'struct'):
        for _, o, ft in p.fields(ty):
            out += limb_places(ip, ft, o)
    elif t['k'] == 'adt' and t['adt'] == 'enum':
        seen = set()
        for v in range(len(t['variants'])):
            for _, o, ft in p.fields(ty, v):
                for x in limb_places(ip, ft, o):
                    if x not in seen:
                        seen.add(x)
                        out.append(x)
    return out


def fold_blob(ip, v, ty):
    lp = limb_places(ip, ty)
    if not lp:
        return v
    idx = None
    cells = None
    for off, kind in lp:
        if idx is None:
            idx = {c[0]: i for i, c in enumerate(v.cells)}
        n = N[kind]
        ii = [idx.get(off + 4 * j) for j in range(n)]
        if any(i is None for i in ii) or any(v.cells[i][1] != 4 for i in ii):
            continue
        vals = [v.cells[i][2] for i in ii]
        if _exact(vals):
            continue
        A = fold_vals(kind, vals)
        if A is None:
            continue
        if cells is None:
            cells = list(v.cells)
        for j, i in enumerate(ii):
            cells[i] = (off + 4 * j, 4, pa(A.limbs[j]))
    if cells is not None:
        v = Blob(v.size, cells)
    return v


def _exact(vals):
    x = vals[0]
    if x.__class__ is not Poly or len(x.d) != 1:
        return False
    a = linear_atom(x)
    if a is None or a not in LIMB:
        return False
    A, i = LIMB[a]
    if i or len(vals) != len(A.limbs):
        return False
    for j in range(1, len(vals)):
        y = vals[j]
        if y.__class__ is not Poly or len(y.d) != 1 or y.d.get(amono(A.limbs[j])) != 1:
            return False
    return True


def mem_limbs(al, off, kind):
    out = []
    cells = al.cells
    for j in range(N[kind]):
        c = cells.get(off + 4 * j)
        if c is None or c[0] != 4:
            return None
        out.append(c[1])
    return out


def fold_mem(ip, st, q, ty):
    if q.__class__ is not Ptr or q.o.__class__ is not int:
        return
    al = st.mem.m.get(q.a)
    if al is None or (al.const is not None and not al.cells):
        return
    for off, kind in limb_places(ip, ty):
        vals = mem_limbs(al, q.o + off, kind)
        if vals is None or _exact(vals):
            continue
        A = fold_vals(kind, vals)
        if A is None:
            continue
        al = st.mem.w(q.a)
        for j, l in enumerate(A.limbs):
            al.cells[q.o + off + 4 * j] = (4, pa(l))


POINT_HOOK = [None]


def is_local(ip, inst):
    return ip.p.I[inst]['crate'] == 'libgoldilocks'


def on_return(ip, st, fr, v):
    if not is_local(ip, fr.inst):
        return v
    code = fr.body
    rt = code.ltys[0]
    if v.__class__ is Blob and v.cells:
        v = fold_blob(ip, v, rt)
        if POINT_HOOK[0]:
            v = POINT_HOOK[0].blob(ip, st, v, rt, fr)
    for i in range(1, code.argc + 1):
        t = ip.p.T[code.ltys[i]]
        if t['k'] in ('ref', 'ptr') and t.get('mut') and ip.p.cls(code.ltys[i]) == 's':
            q = fr.r[i]
            if code.kind[i] != 'r':
                continue
            fold_mem(ip, st, q, t['to'])
            if POINT_HOOK[0]:
                POINT_HOOK[0].mem(ip, st, q, t['to'], fr)
    return v


# ---- summaries ----------------------------------------------------------------------------------
class Bind:
    def __init__(self):
        self.keys = []
        self.arrs = []      # actual Arr per symbol
        self.bools = []
        self.regions = []   # [(alloc, off, ty)] in order of first appearance
        self.args = []
        self.widen = False


def flat(ip, ty):
    """leaves of a type for summaries: [(off, 'F'|'S'|size)] or None"""
    c = ip.__dict__.setdefault('_flat', {})
    if ty not in c:
        c[ty] = _flat(ip, ty)
    return c[ty]


def _flat(ip, ty):
    p = ip.p
    k = p.is_limbs(ty)
    if k:
        return [(0, k, ty)]
    c = p.cls(ty)
    if c == 'z':
        return []
    if c == 's':
        t = p.T[ty]
        if t['k'] in ('ptr', 'ref', 'fnptr'):
            return None
        return [(0, p.size(ty), ty)]
    if c == 'f':
        return None
    t = p.T[ty]
    out = []
    if t['k'] == 'array':
        if t['len'] > 64:
            return None
        f = flat(ip, t['elem'])
        if f is None:
            return None
        es = p.size(t['elem'])
        for i in range(t['len']):
            out += [(i * es + o, k, ft) for o, k, ft in f]
        return out
    if t['k'] in ('tuple',) or (t['k'] == 'adt' and t['adt'] == 'struct'):
        for _, o, ft in p.fields(ty):
            f = flat(ip, ft)
            if f is None:
                return None
            out += [(o + oo, k, f3) for oo, k, f3 in f]
        return out
    return None


def abstract_leaf(ip, b, kind, vals, ty):
    """-> key or None; vals: list of limb values, or single scalar"""
    if kind in ('F', 'S'):
        if all(v.__class__ is int for v in vals):
            return ('K',) + tuple(vals)
        if _exact(vals):
            A = LIMB[linear_atom(vals[0])][0]
        else:
            A = fold_memo(kind, vals)
        if A is None or A.kind != kind:
            return None
        n = len(b.arrs)
        b.arrs.append(A)
        if b.widen and kind == 'F' and not A.canon:
            c = -(-max(A.bounds) // 0x10000200)
            if c <= 15:
                bs = (c * 0x10000200,) * 16
                return ('A', kind, bs, 0, sum(x << (28 * i) for i, x in enumerate(bs)), False, n)
        return ('A', kind, A.bounds, A.vlo, A.vhi, A.canon, n)
    v = vals
    if v.__class__ is int:
        return ('c', v)
    if v is UNDEF:
        return None
    if v.__class__ is Poly:
        w = ip.p.width(ty)
        if w is None:
            return None
        if w[0] == 1:
            B, m = v, 1
        else:
            B = mask_of(norm(v, *w), w[0])
            m = (1 << w[0]) - 1
            if w[1]:
                m = -1
        if B is None or is_c(B) or not is_boolpoly(B):
            return None
        n = len(b.bools)
        b.bools.append(B)
        return ('B', m, n)
    return None


def make_bind(ip, st, inst, args, widen=False):
    code = ip.get_code(inst)
    if code.argc != len(args):
        return None
    b = Bind()
    b.widen = widen
    nregion = {}
    some = False
    for i, a in enumerate(args):
        ty = code.ltys[i + 1]
        t = ip.p.T[ty]
        c = ip.p.cls(ty)
        if c == 'z':
            b.keys.append('z')
            continue
        if t['k'] in ('ref', 'ptr'):
            if c == 'f' or a.__class__ is not Ptr or a.o.__class__ is not int:
                return None
            f = flat(ip, t['to'])
            if f is None:
                return None
            r = nregion.get((a.a, a.o, t['to']))
            if r is not None:
                b.keys.append(('same', r))
                b.args.append(('r', r))
                continue
            sz = ip.p.size(t['to'])
            for (al, o, ty2) in nregion:
                if al == a.a and o < a.o + sz and a.o < o + ip.p.size(ty2):
                    return None
            al = st.mem.m.get(a.a)
            if al is None:
                return None
            ks = []
            for o, k, ft in f:
                if k in ('F', 'S'):
                    vals = mem_limbs(al, a.o + o, k)
                    if vals is None:
                        vals = [ip.fix(st, load_cell(al, a.o + o + 4 * j, 4), None) for j in range(N[k])]
                else:
                    vals = ip.fix(st, load_cell(al, a.o + o, k), ft)
                kk = abstract_leaf(ip, b, k, vals, ft)
                if kk is None:
                    return None
                some = some or kk[0] == 'A'
                ks.append(kk)
            r = nregion[(a.a, a.o, t['to'])] = len(b.regions)
            b.regions.append((a.a, a.o, t['to'], ks))
            b.keys.append(('reg', t['to'], tuple(ks)))
            b.args.append(('r', r))
            continue
        f = flat(ip, ty)
        if f is None:
            return None
        if a.__class__ is list:
            return None
        ks = []
        if c == 's':
            kk = abstract_leaf(ip, b, f[0][1], a, ty)
            if kk is None:
                return None
            ks.append(kk)
        else:
            d = {o: v for o, s, v in a.cells}
            for o, k, ft in f:
                if k in ('F', 'S'):
                    vals = [d.get(o + 4 * j, UNDEF) for j in range(N[k])]
                else:
                    vals = d.get(o, UNDEF)
                kk = abstract_leaf(ip, b, k, vals, ft)
                if kk is None:
                    return None
                some = some or kk[0] == 'A'
                ks.append(kk)
        b.keys.append(('val', ty, tuple(ks)))
        b.args.append(('v', ty, ks, c))
    if not some:
        return None
    return b


def sym_leaf(k, kk, syms, bsyms):
    if kk[0] == 'K':
        return list(kk[1:])
    if kk[0] == 'c':
        return kk[1]
    if kk[0] == 'B':
        n = kk[2]
        return scale(pa(bsyms[n]), kk[1])
    _, kind, bounds, vlo, vhi, canon, n = kk
    return [pa(l) for l in syms[n].limbs]


class Summary:
    __slots__ = ('regs', 'ret', 'rty', 'id', 'syms', 'bsyms')


SUMS = {}
INLINED = {}
DEPTH = [0]


def on_call(ip, st, fr, inst, args, dest, target):
    if not is_local(ip, inst) or inst in ip.noinline:
        return None
    if POINT_HOOK[0]:
        POINT_HOOK[0].call(ip, st, inst, args)
        v = POINT_HOOK[0].opaque(ip, st, inst, args)
        if v is not None:
            dest(fr, v)
            return DONE
        if POINT_HOOK[0].inline(ip, inst):
            return None
    for widen in (True, False):
        b = make_bind(ip, st, inst, args, widen)
        if b is None:
            return None
        k = (inst, tuple(b.keys))
        s = SUMS.get(k, 0)
        if s == 0:
            s = SUMS[k] = compute(ip, inst, b, k)
        if s is not None:
            break
    if s is None:
        return None
    return apply(ip, st, fr, inst, s, b, dest)


def leaf_keys(b):
    for k in b.keys:
        if k.__class__ is tuple and k[0] in ('reg', 'val'):
            yield from k[2]


def compute(ip, inst, b, k):
    st = State()
    syms = []
    spec = {}
    for kk in leaf_keys(b):
        if kk[0] == 'A':
            spec[kk[6]] = kk
    for n, A in enumerate(b.arrs):
        r = pa(atom('RS', (A.kind, n), None, None))
        _, kind, bounds, vlo, vhi, canon, _ = spec[n]
        syms.append(new_arr(kind, r, bounds, vlo, vhi, canon))
    bsyms = [atom('RB01', n, 0, 1, True) for n in range(len(b.bools))]
    code = ip.get_code(inst)
    regs = []
    for (al, off, ty, ks) in b.regions:
        i = st.mem.new(ip.p.size(ty), 'arg')
        w = st.mem.w(i)
        for (o, k2, ft), kk in zip(flat(ip, ty), ks):
            v = sym_leaf(k2, kk, syms, bsyms)
            if isinstance(v, list):
                for j, x in enumerate(v):
                    w.cells[o + 4 * j] = (4, x)
            else:
                w.cells[o] = (k2, v)
        regs.append(Ptr(i, 0))
    args = []
    it = iter(b.args)
    for i in range(1, code.argc + 1):
        if ip.p.cls(code.ltys[i]) == 'z':
            args.append(Blob(0, []))
            continue
        a = next(it)
        if a[0] == 'r':
            args.append(regs[a[1]])
        else:
            _, ty, ks, c = a
            cells = []
            for (o, k2, ft), kk in zip(flat(ip, ty), ks):
                v = sym_leaf(k2, kk, syms, bsyms)
                if isinstance(v, list):
                    cells += [(o + 4 * j, 4, x) for j, x in enumerate(v)]
                else:
                    cells.append((o, k2, v))
            args.append(cells[0][2] if c == 's' else Blob(ip.p.size(ty), cells))
    before = [dict(st.mem.m[q.a].cells) for q in regs]
    sp, sb = ip.pending, ip.branches
    ip.pending, ip.branches = [], []
    hk = POINT_HOOK[0]
    POINT_HOOK[0] = None
    try:
        ip.push(st, inst, args)
        outs = ip.run(st)
        bad = bool(ip.pending) or (bool(ip.branches) and (len(outs) != 1 or bool(outs[0].st.conds)))
        if not bad:
            sb.extend(ip.branches)
    except Unsupported:
        outs, bad = [], True
    finally:
        ip.pending, ip.branches = sp, sb
        POINT_HOOK[0] = hk
    if bad or len(outs) != 1 or outs[0].kind != 'ret' or outs[0].st.events:
        return None
    st, v = outs[0].st, outs[0].val
    s = Summary()
    s.id = len(SUMS)
    s.syms, s.bsyms = syms, bsyms
    s.regs = []
    own = {A.id: n for n, A in enumerate(syms)}
    for q, (al, off, ty, ks), bf in zip(regs, b.regions, before):
        fold_mem(ip, st, q, ty)
        cur = st.mem.m[q.a]
        ch = []
        for o, k2, ft in flat(ip, ty):
            if k2 in ('F', 'S'):
                vals = mem_limbs(cur, o, k2)
                old = [bf.get(o + 4 * j, (0, UNDEF))[1] for j in range(N[k2])]
                if vals == old:
                    continue
                x = out_limbs(vals, own)
                if x is None:
                    return None
                ch.append((o, x))
            else:
                c = cur.cells.get(o)
                if c is None or c[0] != k2:
                    return None
                if c[1] == bf[o][1]:
                    continue
                if c[1].__class__ is not int:
                    return None
                ch.append((o, ('c', c[1], k2)))
        if ch:
            s.regs.append((q, ch))
    s.regs = [(regs.index(q), ch) for q, ch in s.regs]
    rt = code.ltys[0]
    s.rty = rt
    c = ip.p.cls(rt)
    if c == 'z':
        s.ret = None
    elif c == 's':
        if v.__class__ is not int:
            return None
        s.ret = ('s', v)
    elif c == 'm':
        f = flat(ip, rt)
        if f is None or v.__class__ is not Blob:
            return None
        v = fold_blob(ip, v, rt)
        d = {o: x for o, sz, x in v.cells}
        out = []
        for o, k2, ft in f:
            if k2 in ('F', 'S'):
                x = out_limbs([d.get(o + 4 * j, UNDEF) for j in range(N[k2])], own)
                if x is None:
                    return None
                out.append((o, x))
            else:
                if d.get(o, UNDEF).__class__ is not int:
                    return None
                out.append((o, ('c', d[o], k2)))
        s.ret = ('m', out)
    else:
        return None
    return s


def out_limbs(vals, own):
    if vals is None:
        return None
    if all(v.__class__ is int for v in vals):
        return ('k', vals)
    if not _exact(vals):
        return None
    A = LIMB[linear_atom(vals[0])][0]
    if A.id in own:
        return ('in', own[A.id])
    for a in atoms_of(A.res):
        if KIND[a] not in ('RS', 'RB01'):
            return None
    return ('a', A)


_inst = {}


def inst_arr(s, x, b):
    """instantiate an output array of a summary"""
    if x[0] == 'in':
        return b.arrs[x[1]]
    A = x[1]
    k = (s.id, A.id, tuple(z.id for z in b.arrs), tuple(key(z) for z in b.bools))
    r = _inst.get(k)
    if r is not None:
        return r
    mod = MOD[A.kind]
    big = {}
    for m in (A.res.d if not is_c(A.res) else ()):
        for a, e in MONO[m]:
            if e > 6:
                big[a] = True
    mp = {}
    for n, Z in enumerate(b.arrs):
        sa = atom('RS', (Z.kind, n), None, None)
        rz = Z.res
        if not is_c(rz) and len(rz.d) > 1 and sa in big:
            rz = name_res(Z.kind, rz)
        if not is_c(rz) and len(rz.d) > 400:
            rz = name_res(Z.kind, rz)
        mp[sa] = rz
    for n, B in enumerate(b.bools):
        mp[s.bsyms[n]] = B
    res = name_pow(A.kind, rsubst(A.res, mp, mod))
    if not is_c(res) and len(res.d) > 3000:
        res = name_res(A.kind, res)
    r = new_arr(A.kind, res, A.bounds, A.vlo, A.vhi, A.canon)
    _inst[k] = r
    return r


BIG = 1 << 64


def name_pow(kind, r):
    """a^e with a huge exponent becomes an atom PW(a, e) (not for the symbols of a summary)"""
    if is_c(r):
        return r
    d = {}
    for m, c in r.d.items():
        t = MONO[m]
        if any(e > BIG and KIND[a] != 'RS' for a, e in t):
            q = {}
            for a, e in t:
                if e > BIG and KIND[a] != 'RS':
                    a, e = atom('PW', (kind, a, e), None, None), 1
                q[a] = q.get(a, 0) + e
            m = mono(tuple(sorted(q.items())))
        d[m] = (d.get(m, 0) + c) % MOD[kind]
    return mk({m: c for m, c in d.items() if c})


def rsubst(x, mp, mod):
    if is_c(x):
        return x
    out = 0
    for m, c in x.d.items():
        r = c
        for a, e in MONO[m]:
            v = mp.get(a)
            if v is None:
                v = pa(a)
            if e > 6 and not is_c(v) and len(v.d) == 1:
                (vm, vc), = v.d.items()
                t = tuple((aa, ee * e if not BOOL[aa] else 1) for aa, ee in MONO[vm])
                v = Poly({mono_red(mono(t), mod): pow(vc, e, mod)})
                r = rmul(r, v, mod)
            elif is_c(v):
                r = rmul(r, pow(v, e, mod), mod)
            else:
                for _ in range(e):
                    r = rmul(r, v, mod)
        out = add(out, r)
    return rnorm(out, mod)


def apply(ip, st, fr, inst, s, b, dest):
    for ri, ch in s.regs:
        al, off, ty, ks = b.regions[ri]
        w = st.mem.w(al)
        for o, x in ch:
            put(w, off + o, x, s, b)
    if s.ret is None:
        v = Blob(0, [])
    elif s.ret[0] == 's':
        v = s.ret[1]
    else:
        al = Alloc(ip.p.size(s.rty), 'ret')
        for o, x in s.ret[1]:
            put(al, o, x, s, b)
        v = Blob(al.size, [(o, c[0], c[1]) for o, c in sorted(al.cells.items())])
    if POINT_HOOK[0]:
        if v.__class__ is Blob and v.cells:
            v = POINT_HOOK[0].blob(ip, st, v, s.rty, None)
        for ri, ch in s.regs:
            al, off, ty, ks = b.regions[ri]
            POINT_HOOK[0].mem(ip, st, Ptr(al, off), ty, None)
    dest(fr, v)
    return DONE


def put(al, off, x, s, b):
    if x[0] == 'k':
        for j, v in enumerate(x[1]):
            store_cell(al, off + 4 * j, 4, v)
    elif x[0] == 'c':
        store_cell(al, off, x[2], x[1])
    else:
        A = inst_arr(s, x, b)
        for j, l in enumerate(A.limbs):
            store_cell(al, off + 4 * j, 4, pa(l))


def install(ip):
    ip.on_return = on_return
    ip.on_call = on_call
    ip.noinline = set()
    return ip
