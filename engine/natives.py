"""Models of library functions (allocation, byte vectors, hashing, hex, randomness)."""
import re
from poly import *
from domain import *
from mem import *
from interp import Outcome, Parts, INLINE, blob_arr
from code_ import ptr_add, ptr_eq, ip_copy

EXACT = {}
REGEX = []
INTR = {}


def native(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def nativere(rx):
    def d(f):
        REGEX.append((re.compile(rx), f))
        return f
    return d


def intr(*names):
    def d(f):
        for n in names:
            INTR[n] = f
        return f
    return d


def resolver(ip, inst):
    I = ip.p.I[inst]
    if I['kind'] == 'intrinsic':
        n = I.get('intrinsic') or I['name']
        n = n.split('::')[-1]
        f = INTR.get(n)
        if f is None and I['body'] is None:
            def bad(ip, st, fr, inst, args):
                raise Unsupported('intrinsic ' + n)
            return bad
        return f
    d = I.get('def') or ''
    for k in (d, I['name']):
        f = EXACT.get(k)
        if f:
            return f
    for rx, f in REGEX:
        if rx.search(I['name']) or rx.search(d):
            return f
    return None


def fieldpath(ip, ty, path):
    """offset and type of nested field names"""
    off = 0
    for n in path:
        for nm, o, ft in ip.p.fields(ty):
            if nm == n:
                off += o
                ty = ft
                break
        else:
            raise Unsupported('field %s of %s' % (n, ip.p.T[ty]['str']))
    return off, ty


def panic(ip, st, fr, inst, args):
    return Outcome('panic', st, None, ip.p.name[inst], ip.stack(st))


for n in ('core::panicking::panic_fmt', 'core::panicking::panic', 'core::panicking::panic_nounwind',
          'std::rt::panic_fmt', 'core::panicking::assert_failed', 'std::result::unwrap_failed',
          'core::result::unwrap_failed', 'core::option::unwrap_failed', 'core::option::expect_failed',
          'std::option::unwrap_failed', 'std::option::expect_failed', 'alloc::raw_vec::handle_error'):
    EXACT[n] = panic
REGEX.append((re.compile(r'panicking::|unwrap_failed$|expect_failed$|slice_index_fail|len_mismatch_fail|copy_from_slice_impl::fail|handle_alloc_error|handle_error$|capacity_overflow|panic_display|unreachable_display|panic_const'), panic))


# ---- fmt: irrelevant to values -----------------------------------------------------------
@nativere(r'^(std|core|alloc)::fmt::(Arguments|rt::Argument)')
def fmt_(ip, st, fr, inst, args):
    body_ret = fr.body.place_ty
    return Blob(64, [])


# ---- intrinsics ----------------------------------------------------------------------------
@intr('cold_path', 'assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid', 'assume')
def nop(ip, st, fr, inst, args):
    return Blob(0, [])


@intr('likely', 'unlikely', 'black_box')
def ident(ip, st, fr, inst, args):
    return args[0]


@intr('ptr_offset_from_unsigned', 'ptr_offset_from')
def ptr_off(ip, st, fr, inst, args):
    a, b = args[0], args[1]
    es = ip.p.size(ip.p.I[inst]['targs'][0])
    if a.__class__ is Ptr and b.__class__ is Ptr and a.a == b.a:
        d = sub(a.o, b.o)
    elif a.__class__ is int and b.__class__ is int:
        d = a - b
    else:
        raise Unsupported('pointer difference')
    if is_c(d):
        return d // es
    return mk({m: c // es for m, c in d.d.items()}) if all(c % es == 0 for c in d.d.values()) else _uns('pointer difference')


def _uns(s):
    raise Unsupported(s)


@intr('size_of_val')
def size_of_val(ip, st, fr, inst, args):
    ty = ip.p.I[inst]['targs'][0]
    t = ip.p.T[ty]
    a = args[0]
    if a.__class__ is Fat:
        if t['k'] == 'str':
            return a.m
        if t['k'] == 'slice':
            return scale(a.m, ip.p.size(t['elem']))
        raise Unsupported('size_of_val')
    return ip.p.size(ty)


@intr('align_of_val')
def align_of_val(ip, st, fr, inst, args):
    ty = ip.p.I[inst]['targs'][0]
    t = ip.p.T[ty]
    if t['k'] == 'slice':
        return ip.p.align(t['elem'])
    if t['k'] == 'str':
        return 1
    return ip.p.align(ty)


@intr('write_bytes')
def write_bytes(ip, st, fr, inst, args):
    p, v, n = args
    es = ip.p.size(ip.p.I[inst]['targs'][0])
    n = scale(n, es)
    if not is_c(n) or not is_c(v):
        raise Unsupported('write_bytes')
    if n:
        al = st.mem.w(p.a)
        for i in range(n):
            store_cell(al, p.o + i, 1, v)
    return Blob(0, [])


@intr('copy_nonoverlapping', 'copy')
def copy_no(ip, st, fr, inst, args):
    es = ip.p.size(ip.p.I[inst]['targs'][0])
    ip_copy(ip, st, args[0], args[1], args[2], es)
    return Blob(0, [])


def rd(ip, st, p, off, n):
    ip.bounds(st, st.mem.m[p.a], off, n)
    return rope_read(st.mem.m[p.a], off, n)


def bytes_eq(ip, st, a, b, n):
    """[a[0..n) == b[0..n)] as one predicate"""
    if is_c(n) and n == 0:
        return 1
    if a == b:
        return 1
    if is_c(n):
        ra = rd(ip, st, a, a.o, n)
        rb = rd(ip, st, b, b.o, n)
        if any(isinstance(x, tuple) for x in ra + rb):
            raise Unsupported('comparison of byte sequences')
        return seq_eq(ra, rb, 8)
    raise Unsupported('comparison of symbolic length')


def seq_eq(xs, ys, w):
    D = 0
    for i, (x, y) in enumerate(zip(xs, ys)):
        if x is UNDEF or y is UNDEF:
            raise Unsupported('comparison of uninitialised data')
        x, y = norm(x, w), norm(y, w)
        if x == y:
            continue
        if is_c(x) and is_c(y):
            return 0
        D = add(D, scale(sub(x, y), 1 << (w * i)))
    return EQ(D)


@intr('raw_eq')
def raw_eq(ip, st, fr, inst, args):
    ty = ip.p.I[inst]['targs'][0]
    return typed_eq(ip, st, args[0], args[1], ty)


def typed_eq(ip, st, a, b, ty):
    lv = ip.p.leaves(ty)
    if lv is None:
        return bytes_eq(ip, st, a, b, ip.p.size(ty))
    w = {s for _, s, _ in lv}
    if len(w) != 1:
        raise Unsupported('raw_eq')
    w = w.pop()
    xs = [load_cell_(ip, st, a, o, s) for o, s, _ in lv]
    ys = [load_cell_(ip, st, b, o, s) for o, s, _ in lv]
    return seq_eq(xs, ys, 8 * w)


def load_cell_(ip, st, a, o, s):
    return ip.fix(st, load_cell(st.mem.m[a.a], add(a.o, o), s), None)


@intr('compare_bytes')
def compare_bytes(ip, st, fr, inst, args):
    e = bytes_eq(ip, st, args[0], args[1], args[2])
    # only "= 0" is meaningful
    if is_c(e):
        return 1 - e
    return sub(1, e)


@intr('rotate_left')
def rotl(ip, st, fr, inst, args):
    ty = ip.p.I[inst]['targs'][0]
    w = ip.p.width(ty)[0]
    x, k = args
    if is_c(x) and is_c(k):
        k %= w
        return ((x << k) | (x >> (w - k))) & ((1 << w) - 1)
    raise Unsupported('rotate')


@intr('disjoint_bitor')
def dbor(ip, st, fr, inst, args):
    return vadd(args[0], args[1])


@intr('ctpop')
def ctpop(ip, st, fr, inst, args):
    if is_c(args[0]):
        return bin(args[0]).count('1')
    raise Unsupported('ctpop')


def _ctz(ip, st, fr, inst, args):
    if is_c(args[0]):
        x = args[0]
        return (x & -x).bit_length() - 1 if x else ip.p.width(ip.p.I[inst]['targs'][0])[0]
    x = norm(args[0], ip.p.width(ip.p.I[inst]['targs'][0])[0])
    if x.__class__ is Poly:
        # decided when the constant term alone carries the lowest set bit
        c0 = x.d.get(0, 0)
        v = (c0 & -c0).bit_length() - 1
        if c0 and all(c % (2 << v) == 0 for m, c in x.d.items() if m):
            return v
    elif is_c(x):
        return _ctz(ip, st, fr, inst, [x])
    raise Unsupported('cttz %s' % str(x)[:200])


INTR['cttz'] = INTR['cttz_nonzero'] = _ctz


def arith_ov(op):
    def f(ip, st, fr, inst, args):
        ty = ip.p.I[inst]['targs'][0]
        w, sg = ip.p.width(ty)
        a, b = norm(args[0], w, sg), norm(args[1], w, sg)
        r = vadd(a, b) if op == 'a' else vsub(a, b) if op == 's' else vmul(a, b)
        lo = -(1 << (w - 1)) if sg else 0
        hi = lo + (1 << w) - 1
        ok = 1
        l, h = interval(r)
        if l < lo:
            ok = conj(ok, flag(sub(r, lo)))
        if h > hi:
            ok = conj(ok, flag(sub(hi, r)))
        if is_c(r):
            r = ((r - lo) & ((1 << w) - 1)) + lo
        return [r, sub(1, ok)]
    return f


INTR['add_with_overflow'] = arith_ov('a')
INTR['sub_with_overflow'] = arith_ov('s')
INTR['mul_with_overflow'] = arith_ov('m')


def wrapping(op):
    def f(ip, st, fr, inst, args):
        ty = ip.p.I[inst]['targs'][0]
        w, sg = ip.p.width(ty)
        a, b = args
        r = vadd(a, b) if op == 'a' else vsub(a, b) if op == 's' else vmul(a, b)
        if is_c(r):
            lo = -(1 << (w - 1)) if sg else 0
            r = ((r - lo) & ((1 << w) - 1)) + lo
        return r
    return f


INTR['wrapping_add'] = wrapping('a')
INTR['wrapping_sub'] = wrapping('s')
INTR['wrapping_mul'] = wrapping('m')


# ---- allocation ------------------------------------------------------------------------------
@nativere(r'alloc::alloc::__rust_alloc$|__rust_alloc_zeroed$')
def rust_alloc(ip, st, fr, inst, args):
    n = args[0].cells[0][2] if args[0].__class__ is Blob else args[0]
    i = st.mem.new(n, 'heap')
    if 'zeroed' in ip.p.name[inst]:
        if not is_c(n):
            raise Unsupported('zeroed allocation of unknown size')
        al = st.mem.w(i)
        for k in range(n):
            al.cells[k] = (1, 0)
    return Ptr(i, 0)


@nativere(r'__rust_realloc$')
def rust_realloc(ip, st, fr, inst, args):
    p, old, align, new = [a.cells[0][2] if a.__class__ is Blob else a for a in args]
    i = st.mem.new(new, 'heap')
    a, b = st.mem.m[p.a], st.mem.w(i)
    b.cells = dict(a.cells)
    b.segs = list(a.segs) if a.segs else None
    b.const, b.sym = a.const, a.sym
    return Ptr(i, 0)


@nativere(r'__rust_dealloc$|__rust_no_alloc_shim|__rust_alloc_error_handler')
def rust_dealloc(ip, st, fr, inst, args):
    return Blob(0, [])


# ---- byte vectors --------------------------------------------------------------------------------
def vec_layout(ip, ty):
    k = ('vec', ty)
    r = ip.__dict__.setdefault('_vl', {}).get(ty)
    if r is None:
        lo, _ = fieldpath(ip, ty, ['len'])
        bo, bt = fieldpath(ip, ty, ['buf'])
        io, it = fieldpath(ip, bt, ['inner'])
        po, _ = fieldpath(ip, it, ['ptr'])
        co, _ = fieldpath(ip, it, ['cap'])
        r = ip._vl[ty] = (bo + io + po, bo + io + co, lo)
    return r


def is_u8(ip, ty):
    t = ip.p.T[ty]
    return t['k'] == 'uint' and t['bits'] == 8


def find_vec_ty(ip):
    v = ip.__dict__.get('_vecu8')
    if v is None:
        for i, t in enumerate(ip.p.T):
            if t['str'] in ('std::vec::Vec<u8>', 'alloc::vec::Vec<u8>'):
                ip._vecu8 = i
                return i
        raise Unsupported('no Vec<u8> type')
    return v


def mk_vec(ip, st, items):
    ty = find_vec_ty(ip)
    po, co, lo = vec_layout(ip, ty)
    n = rope_len(items)
    i = st.mem.new(n, 'vec')
    rope_write(st.mem.w(i), 0, items)
    return Blob(ip.p.size(ty), sorted([(po, 8, Ptr(i, 0)), (co, 8, n), (lo, 8, n)]))


def vec_items(ip, st, p):
    ty = find_vec_ty(ip)
    po, co, lo = vec_layout(ip, ty)
    al = st.mem.m[p.a]
    q, n = load_cell(al, p.o + po, 8), load_cell(al, p.o + lo, 8)
    if q.__class__ is not Ptr:
        return []
    return rd(ip, st, q, q.o, n)


def vec_set(ip, st, p, items):
    b = mk_vec(ip, st, items)
    al = st.mem.w(p.a)
    for o, s, v in b.cells:
        store_cell(al, p.o + o, s, v)


def slice_items(ip, st, s):
    if is_c(s.m) and s.m == 0:
        return []
    return rd(ip, st, s.p, s.p.o, s.m)


def u8only(f):
    def g(ip, st, fr, inst, args):
        ta = ip.p.I[inst]['targs']
        if not ta or not is_u8(ip, ta[0]):
            return INLINE
        return f(ip, st, fr, inst, args)
    return g


@nativere(r'slice::<impl \[.*\]>::to_vec$|slice::<impl \[.*\]>::to_vec_in')
@u8only
def to_vec(ip, st, fr, inst, args):
    return mk_vec(ip, st, slice_items(ip, st, args[0]))


@nativere(r'^std::vec::Vec::<[^>]*(, A)?>::append$|^alloc::vec::Vec::<[^>]*>::append$')
@u8only
def vec_append(ip, st, fr, inst, args):
    a, b = args
    x, y = vec_items(ip, st, a), vec_items(ip, st, b)
    vec_set(ip, st, a, x + y)
    vec_set(ip, st, b, [])
    return Blob(0, [])


@nativere(r'^(std|alloc)::vec::Vec::<[^>]*>::(push|push_mut)$')
@u8only
def vec_push(ip, st, fr, inst, args):
    if 'push_mut' in ip.p.name[inst]:
        return INLINE
    a, b = args
    vec_set(ip, st, a, vec_items(ip, st, a) + [norm(b, 8)])
    return Blob(0, [])


@nativere(r'^(std|alloc)::vec::Vec::<[^>]*>::(extend_from_slice|append_elements)$')
@u8only
def vec_extend(ip, st, fr, inst, args):
    a, b = args
    vec_set(ip, st, a, vec_items(ip, st, a) + slice_items(ip, st, b))
    return Blob(0, [])


@nativere(r'^<(std|alloc)::vec::Vec<T(, A)?> as (std|core)::clone::Clone>::clone$')
@u8only
def vec_clone(ip, st, fr, inst, args):
    return mk_vec(ip, st, vec_items(ip, st, args[0]))


@nativere(r'^(std|alloc)::vec::Vec::<[^>]*>::(reserve|reserve_exact)$')
@u8only
def vec_reserve(ip, st, fr, inst, args):
    return Blob(0, [])


@nativere(r'^(std|alloc)::vec::Vec::<[^>]*>::(truncate)$')
@u8only
def vec_trunc(ip, st, fr, inst, args):
    a, n = args
    it = vec_items(ip, st, a)
    if is_c(n) and all(not isinstance(x, tuple) for x in it[:n]) and len(it) >= n:
        vec_set(ip, st, a, it[:n])
        return Blob(0, [])
    raise Unsupported('truncate')


# byte vectors built from iterators over byte slices
class NeedCase(Exception):
    pass


def known_ge(ip, st, x):
    c = ip.apply_known(st, GE(x))
    if not is_c(c):
        e = NeedCase()
        e.cond = c
        raise e
    return c


def iter_items(ip, st, ty, cells, off=0, cut=()):
    """items an iterator value will yield, or None when the adapter is not modelled; cut: Take/Skip around it"""
    t = ip.p.T[ty]
    n = t.get('name') or ''
    s = n.split('::')[-1]

    def cell(o):
        for x, _, v in cells:
            if x == o:
                return v
        return None
    F = {a: (o, ft) for a, o, ft in ip.p.fields(ty)} if t['k'] == 'adt' else {}
    if n.endswith('slice::Iter') and set(F) >= {'ptr', 'end_or_len'}:
        p, e = cell(off + F['ptr'][0]), cell(off + F['end_or_len'][0])
        if p.__class__ is Ptr and e.__class__ is Ptr and p.a == e.a:
            m, o = sub(e.o, p.o), p.o
            for how, n in cut:
                if how == 'Take':
                    m = n if known_ge(ip, st, sub(m, n)) else m
                elif known_ge(ip, st, sub(m, n)):
                    m, o = sub(m, n), add(o, n)
                else:
                    m = 0
            if is_c(m) and m == 0:
                return []
            return rd(ip, st, p, o, m)
        if p.__class__ is int and e.__class__ is int and p == e:
            return []
        return None
    if s in ('Copied', 'Cloned') and 'it' in F:
        return iter_items(ip, st, F['it'][1], cells, off + F['it'][0], cut)
    if s in ('Take', 'Skip') and set(F) >= {'iter', 'n'}:
        k = cell(off + F['n'][0])
        if not is_c(k):
            return None
        return iter_items(ip, st, F['iter'][1], cells, off + F['iter'][0], ((s, k),) + cut)
    if cut:
        return None
    if s == 'Chain' and 'a' in F and 'b' in F:
        out = []
        for k in 'ab':
            o, ft = F[k]
            v = [i for i, x in enumerate(ip.p.T[ft]['variants']) if x['name'] == 'Some'][0]
            lv = ip.p.T[ft]['layout']['variants']
            (_, fo, ity), = ip.p.fields(ft, v)
            p = cell(off + o + fo)
            if lv[0] != 'multi' or lv[3][0] != 'niche' or p is None or p.__class__ is int and p == 0:
                return None
            r = iter_items(ip, st, ity, cells, off + o + fo)
            if r is None:
                return None
            out += r
        return out
    if n.endswith('vec::IntoIter') and set(F) >= {'ptr', 'end'}:
        p, e = cell(off + F['ptr'][0]), cell(off + F['end'][0])
        if p.__class__ is Ptr and e.__class__ is Ptr and p.a == e.a:
            m = sub(e.o, p.o)
            if is_c(m) and m == 0:
                return []
            return rd(ip, st, p, p.o, m)
    return None


def iter_arg(ip, st, ty, a):
    if a.__class__ is not Blob:
        return None
    return iter_items(ip, st, ty, a.cells)


@nativere(r'^(std|alloc)::vec::Vec::<[^>]*>::extend_(trusted|desugared)(::<|$)')
@u8only
def vec_extend_iter(ip, st, fr, inst, args):
    try:
        r = iter_arg(ip, st, ip.p.I[inst]['targs'][2], args[1])
    except NeedCase as e:
        def go(s2):
            r2 = iter_arg(ip, s2, ip.p.I[inst]['targs'][2], args[1])
            vec_set(ip, s2, args[0], vec_items(ip, s2, args[0]) + r2)
            return Blob(0, [])
        return Parts(st, [(e.cond, go), (sub(1, e.cond), go)])
    if r is None:
        return INLINE
    vec_set(ip, st, args[0], vec_items(ip, st, args[0]) + r)
    return Blob(0, [])


@nativere(r'^<(std|alloc)::vec::Vec<[^>]*> as .*SpecFromIter(Nested)?<.*>>::from_iter')
@u8only
def vec_from_iter(ip, st, fr, inst, args):
    ta = ip.p.I[inst]['targs']
    try:
        r = iter_arg(ip, st, ta[1], args[0]) if len(ta) > 1 else None
    except NeedCase as e:
        def go(s2):
            return mk_vec(ip, s2, iter_arg(ip, s2, ta[1], args[0]))
        return Parts(st, [(e.cond, go), (sub(1, e.cond), go)])
    if r is None:
        return INLINE
    return mk_vec(ip, st, r)


@intr('saturating_add', 'saturating_sub')
def satur(ip, st, fr, inst, args):
    ty = ip.p.I[inst]['targs'][0]
    s, w = ip.p.T[ty]['str'], ip.p.width(ty)
    a, b = args
    add = 'add' in (ip.p.I[inst].get('intrinsic') or ip.p.I[inst]['name'])
    if is_c(a) and is_c(b):
        r = a + b if add else a - b
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if s[0] == 'i' else (0, (1 << w) - 1)
        return max(lo, min(hi, r))
    raise Unsupported('intrinsic saturating on unknown values')


# copies between slices: length check is part of the contract
@nativere(r'^(core|std)::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)$')
def copy_from_slice(ip, st, fr, inst, args):
    d, s = args
    es = ip.p.size(ip.p.I[inst]['targs'][0])
    ok = ip.apply_known(st, EQ(sub(d.m, s.m)))

    def go(st):
        ip_copy(ip, st, s.p, d.p, d.m if is_c(d.m) else s.m, es)
        return Blob(0, [])
    if is_c(ok):
        if ok:
            return go(st)
        return Outcome('panic', st, None, 'copy_from_slice: length mismatch', ip.stack(st))
    nm = ip.stack(st)
    return Parts(st, [(sub(1, ok), lambda s2: Outcome('panic', s2, None, 'copy_from_slice: length mismatch', nm)),
                      (ok, go)])


# equality of slices and arrays
@nativere(r'SliceEq<.*>>::equal$|SlicePartialEq<.*>>::equal$')
def slice_equal(ip, st, fr, inst, args):
    if len(args) == 2:
        a, b = args
        ta = ip.p.I[inst]['targs'][0]
        if ip.p.cls(ta) != 's':
            return INLINE
        w = ip.p.size(ta)
        ln = ip.apply_known(st, EQ(sub(a.m, b.m)))
        if is_c(ln):
            if not ln:
                return 0
            return seqs(ip, st, a.p, b.p, a.m if is_c(a.m) else b.m, w)
        n = a.m if is_c(a.m) else b.m

        def th(s2):
            f2 = s2.frames[-1]
            return seqs(ip, s2, a.p, b.p, n, w)
        return Parts(st, [(sub(1, ln), lambda s2: 0), (ln, th)])
    a, b, n = args
    ta = ip.p.I[inst]['targs'][0]
    return seqs(ip, st, a, b, n, ip.p.size(ta))


def seqs(ip, st, a, b, n, w):
    if not is_c(n):
        raise Unsupported('comparison of symbolic length')
    if n == 0:
        return 1
    if w == 1:
        return bytes_eq(ip, st, a, b, n)
    xs = [load_cell_(ip, st, a, w * i, w) for i in range(n)]
    ys = [load_cell_(ip, st, b, w * i, w) for i in range(n)]
    return seq_eq(xs, ys, 8 * w)


# ---- hashing: an extendable-output function is an uninterpreted function of the absorbed bytes -------
@nativere(r'^<digest::core_api::(wrapper::)?CoreWrapper<T> as (std|core)::default::Default>::default$|^<digest::core_api::CoreWrapper<.*> as .*Default>::default$')
def hash_new(ip, st, fr, inst, args):
    ta = ip.p.T[ip.p.I[inst]['targs'][0]]['str'] if ip.p.I[inst]['targs'] else '?'
    return Blob(0, [(0, 8, Obj('hash', (ta, ())))])


def get_obj(ip, st, p):
    c = st.mem.m[p.a].cells.get(p.o)
    if c is None or c[1].__class__ is not Obj:
        raise Unsupported('hash state')
    return c[1]


@nativere(r'^<digest::core_api::wrapper::CoreWrapper<T> as digest::Update>::update$')
def hash_update(ip, st, fr, inst, args):
    o = get_obj(ip, st, args[0])
    items = slice_items(ip, st, args[1])
    store_cell(st.mem.w(args[0].a), args[0].o, 8, Obj('hash', (o.data[0], o.data[1] + tuple(items))))
    return Blob(0, [])


@nativere(r'^<digest::core_api::wrapper::CoreWrapper<T> as digest::ExtendableOutput>::finalize_xof$')
def hash_fin(ip, st, fr, inst, args):
    o = args[0].cells[0][2]
    return Blob(0, [(0, 8, Obj('xof', o.data + (0,)))])


@nativere(r'XofReader>::read$')
def xof_read(ip, st, fr, inst, args):
    o = get_obj(ip, st, args[0])
    alg, items, pos = o.data
    d = args[1]
    if not is_c(d.m):
        raise Unsupported('hash output of symbolic length')
    nm = hash_name(ip, alg, items)
    st.events.append(('hash', nm, alg, items, pos, d.m))
    al = st.mem.w(d.p.a)
    for i in range(d.m):
        store_cell(al, d.p.o + i, 1, byte_atom(nm, pos + i))
    store_cell(st.mem.w(args[0].a), args[0].o, 8, Obj('xof', (alg, items, pos + d.m)))
    return Blob(0, [])


HASHES = {}


def hash_name(ip, alg, items):
    k = ('H', alg, rope_key(items))
    n = HASHES.get(k)
    if n is None:
        n = HASHES[k] = 'H%d' % len(HASHES)
        HASHES[n] = (alg, items)
    return n


# ---- randomness --------------------------------------------------------------------------------------
@nativere(r'^rand::thread_rng$|^rand::rngs::thread::thread_rng$')
def thread_rng(ip, st, fr, inst, args):
    return Blob(8, [(0, 8, Obj('rng', ('thread_rng',)))])


def rng_fill(ip, st, d, who):
    k = st.env.get('rng', 0)
    st.env['rng'] = k + 1
    nm = 'rng%d' % k
    st.events.append(('rng', who, nm, d.m))
    if not is_c(d.m):
        raise Unsupported('random fill of symbolic length')
    if d.m:
        al = st.mem.w(d.p.a)
        for i in range(d.m):
            store_cell(al, d.p.o + i, 1, byte_atom(nm, i))


@nativere(r'^<rand::(prelude::|rngs::(thread::)?)ThreadRng as .*RngCore>::(fill_bytes|try_fill_bytes)$')
def trng_fill(ip, st, fr, inst, args):
    rng_fill(ip, st, args[1], 'thread_rng')
    return Blob(16, [(0, 8, 0)])


@native('sym_fill', 'harness::sym_fill')
def sym_fill(ip, st, fr, inst, args):
    rng_fill(ip, st, args[0], 'caller')
    return Blob(0, [])


@native('sym_u64', 'harness::sym_u64')
def sym_u64(ip, st, fr, inst, args):
    k = st.env.get('rng', 0)
    st.env['rng'] = k + 1
    st.events.append(('rng', 'caller-u64', 'rng%d' % k, 8))
    return pa(atom('rng64', k, 0, 2**64 - 1))


# ---- hexadecimal text ----------------------------------------------------------------------------------
HEX = {}


def hex_name(items):
    """the bytes denoted by these hex digits (an uninterpreted injection of the digit values)"""
    k = rope_key(items)
    n = HEX.get(k)
    if n is None:
        n = HEX[k] = 'X%d' % len(HEX)
        HEX[n] = items
    return n


def asref_items(ip, st, ty, v):
    """bytes behind an AsRef<[u8]> argument: (items reader, length)"""
    t = ip.p.T[ty]
    if t['k'] in ('ref', 'ptr'):
        to = ip.p.T[t['to']]
        if v.__class__ is Fat:
            return v.p, v.m
        if to['k'] == 'array' or to['k'] in ('ref',):
            if to['k'] == 'ref':
                return asref_items(ip, st, t['to'], ip.load(st, v, t['to']))
            return v, ip.p.size(t['to'])
        if to.get('name', '').split('::')[-1] in ('String', 'Vec'):
            po, co, lo = vec_layout(ip, find_vec_ty(ip))
            al = st.mem.m[v.a]
            return load_cell(al, v.o + po, 8), load_cell(al, v.o + lo, 8)
    if t.get('name', '').split('::')[-1] in ('String', 'Vec') and v.__class__ is Blob:
        po, co, lo = vec_layout(ip, find_vec_ty(ip))
        c = {o: x for o, s, x in v.cells}
        return c[po], c[lo]
    if t['k'] == 'array' and v.__class__ is Blob:
        k = st.mem.new(v.size, 'tmp')
        ip.store(st, Ptr(k, 0), ty, v)
        return Ptr(k, 0), v.size
    raise Unsupported('AsRef<[u8]> of %s' % t['str'][:60])


def mk_result(ip, ty, ok):
    """Ok(()) or some Err(FromHexError) of a Result<(), FromHexError>"""
    v = ip.p.T[ty]['layout']['variants']
    toff, (tsz, tsg), enc = v[1], v[2], v[3]
    if enc[0] != 'niche':
        raise Unsupported('layout of the hex result')
    if ok:
        return Blob(ip.p.size(ty), [(toff, tsz, int(enc[4]))])
    return Blob(ip.p.size(ty), [(toff, tsz, 1)])


@nativere(r'^hex::decode_to_slice($|::<)')
def hex_decode_to_slice(ip, st, fr, inst, args):
    I = ip.p.I[inst]
    rty = I['body']['locals'][0]
    p, n = asref_items(ip, st, I['targs'][0], args[0])
    d = args[1]
    if not is_c(d.m):
        raise Unsupported('hex output of symbolic length')
    ln = ip.apply_known(st, EQ(sub(n, 2 * d.m)))

    nm = hex_name(rd(ip, st, p, p.o, n) if n != 0 else [])
    okc = pa(atom('hexok', nm, 0, 1, True))

    def good(s2):
        al = s2.mem.w(d.p.a)
        for i in range(d.m):
            store_cell(al, d.p.o + i, 1, byte_atom(nm, i))
        return mk_result(ip, rty, True)

    def bad(s2):
        # digits before the first malformed one may have been written
        al = s2.mem.w(d.p.a)
        for i in range(d.m):
            store_cell(al, d.p.o + i, 1, byte_atom('junk' + nm, i))
        return mk_result(ip, rty, False)

    def short(s2):
        return mk_result(ip, rty, False)
    if is_c(ln) and not ln:
        return short(st)
    okc = ip.apply_known(st, okc)
    return Parts(st, ([] if is_c(ln) else [(sub(1, ln), short)]) +
                 [(pmul(ln, okc) if not is_c(ln) else okc, good),
                  (pmul(ln, sub(1, okc)) if not is_c(ln) else sub(1, okc), bad)])


HEXLEN = (32, 57, 114)      # lengths that get a case of their own


@nativere(r'^hex::decode($|::<)')
def hex_decode(ip, st, fr, inst, args):
    """Ok of half as many bytes for an even number of hex digits, Err for everything else"""
    I = ip.p.I[inst]
    rty = I['body']['locals'][0]
    v = ip.p.T[rty]['layout']['variants']
    toff, (tsz, tsg), enc = v[1], v[2], v[3]
    if enc[0] != 'niche' or enc[1] != 0:
        raise Unsupported('layout of the hex result')
    p, n = asref_items(ip, st, I['targs'][0], args[0])
    nm = hex_name(rd(ip, st, p, p.o, n) if n != 0 else [])
    okc = pa(atom('hexok', nm, 0, 1, True))
    erv = (int(enc[4]) + 1 - enc[2]) & ((1 << (8 * tsz)) - 1)

    def err(s2):
        return Blob(ip.p.size(rty), sorted([(toff, tsz, erv), (v[4][1][0], 4, 1)]))

    def good(k):
        return lambda s2: mk_vec(ip, s2, [byte_atom(nm, i) for i in range(k)])

    def other(lo, hi):
        return lambda s2: mk_vec(ip, s2, [('s', nm, 0, pa(atom('len', nm + '.%d' % lo, lo, hi)))])
    parts = [(sub(1, okc), err)]
    rest = okc
    for k in HEXLEN:
        e = EQ(sub(n, 2 * k))
        parts.append((pmul(okc, e), good(k)))
        rest = pmul(rest, sub(1, e))
    odd = sub(n, scale(F(n, 1), 2))
    parts.append((pmul(rest, odd), err))
    even = pmul(rest, sub(1, odd))
    for lo, hi in zip((0,) + tuple(k + 1 for k in HEXLEN), tuple(k - 1 for k in HEXLEN) + (1 << 39,)):
        parts.append((pmul(even, sub(GE(sub(n, 2 * lo)), GE(sub(n, 2 * hi + 2)))), other(lo, hi)))
    out = []
    for c, f in parts:
        c = ip.apply_known(st, c)
        if is_c(c) and not c:
            continue
        if is_c(c):
            return f(st)
        out.append((c, f))
    return Parts(st, out)


@nativere(r'^hex::encode($|::<)')
def hex_encode(ip, st, fr, inst, args):
    p, n = asref_items(ip, st, ip.p.I[inst]['targs'][0], args[0])
    if not is_c(n):
        raise Unsupported('hex of symbolic length')
    bs = rd(ip, st, p, p.o, n) if n else []
    if any(isinstance(b, tuple) for b in bs):
        raise Unsupported('hex of symbolic length')
    out = []
    for b in bs:
        b = norm(b, 8)
        for h in (1, 0):
            if is_c(b):
                out.append(ord('0123456789abcdef'[b >> 4 if h else b & 15]))
            else:
                out.append(pa(atom('hexc', (key(b), h), 48, 102)))
    return mk_vec(ip, st, out)


@native('sym_bool', 'harness::sym_bool')
def sym_bool(ip, st, fr, inst, args):
    return pa(atom('sym', args[0], 0, 1, True))


INPUT = 'text'


@native('sym_str', 'harness::sym_str')
def sym_str(ip, st, fr, inst, args):
    ln = pa(atom('len', INPUT, 0, 2**40))
    return Fat(Ptr(st.mem.new(ln, INPUT, sym=INPUT), 0), ln)


@native('sym_string', 'harness::sym_string')
def sym_string(ip, st, fr, inst, args):
    ln = pa(atom('len', INPUT, 0, 2**40))
    return mk_vec(ip, st, [('s', INPUT, 0, ln)])


@native('sym_ser_str', 'harness::sym_ser_str')
def sym_ser_str(ip, st, fr, inst, args):
    st.events.append(('ser', 'str', tuple(slice_items(ip, st, args[0]))))
    return Blob(0, [])


@native('sym_ser_other', 'harness::sym_ser_other')
def sym_ser_other(ip, st, fr, inst, args):
    st.events.append(('ser', 'other', args[0]))
    return Blob(0, [])
