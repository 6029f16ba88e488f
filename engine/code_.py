"""Compilation of MIR bodies into closures over abstract frames."""
from poly import *
from domain import *
from mem import *


class Code:
    def __init__(self, ip, inst):
        self.ip = ip
        self.p = p = ip.p
        self.inst = inst
        b = p.I[inst]['body']
        self.argc = b['argc']
        self.spread = b.get('spread')
        self.ltys = b['locals']
        self.blocks = b['blocks']
        self._c = [None] * len(self.blocks)
        self.kind = self._classify()
        self.memlocals = [i for i, k in enumerate(self.kind) if k == 'm']
        self.setters = [self.setter([i, []]) for i in range(len(self.ltys))]
        self.get_ret = self.getter([0, []])

    # which locals live in registers
    def _classify(self):
        p = self.p
        kinds = []
        for t in self.ltys:
            c = p.cls(t)
            if c in 'sf':
                kinds.append('r')
            elif c == 'z':
                kinds.append('z')
            else:
                tt = p.T[t]
                if tt['k'] == 'tuple' and len(tt['fields']) == 2 and all(p.cls(f) == 's' for f in tt['fields']):
                    kinds.append('t')
                else:
                    kinds.append('m')

        def force(l):
            if kinds[l] in 'rt':
                kinds[l] = 'm'

        def place(pl, ref=False):
            l, pr = pl
            if kinds[l] == 'r':
                if pr and pr[0][0] != 'd':
                    force(l)
                elif ref and not pr:
                    force(l)
            elif kinds[l] == 't':
                if ref and not (pr and pr[0][0] == 'd'):
                    force(l)
                elif pr and pr[0][0] == 'f' and len(pr) == 1:
                    pass
                elif pr:
                    force(l)

        def op(o):
            if o[0] == 'p':
                place(o[1])
        for stm, term in self.blocks:
            for s in stm:
                if s[0] == '=':
                    place(s[2])
                    rv = s[3]
                    if rv[0] == 'ref':
                        place(rv[1], True)
                    elif rv[0] in ('use',):
                        op(rv[1])
                        # whole-tuple moves need memory or list copies: allowed
                    elif rv[0] == 'agg':
                        for o in rv[2]:
                            op(o)
                    elif rv[0] in ('bin', 'chk'):
                        op(rv[2])
                        op(rv[3])
                    elif rv[0] == 'un':
                        op(rv[2])
                    elif rv[0] == 'cast':
                        op(rv[2])
                        if rv[2][0] == 'p' and kinds[rv[2][1][0]] == 't':
                            force(rv[2][1][0])
                    elif rv[0] in ('discr', 'len'):
                        place(rv[1], rv[0] == 'discr')
                    elif rv[0] == 'repeat':
                        op(rv[1])
                elif s[0] == 'sd':
                    place(s[2], True)
                elif s[0] == 'cpy':
                    for o in s[2:5]:
                        op(o)
            k = term[0]
            if k == 'switch':
                op(term[2])
            elif k == 'call':
                op(term[2])
                for o in term[3]:
                    op(o)
                place(term[4])
            elif k == 'assert':
                op(term[2])
            elif k == 'drop' and self.ip.drop_relevant(term[4]):
                place(term[2], True)
        return kinds

    # ---- types ---------------------------------------------------------------------------
    def place_ty(self, pl):
        p = self.p
        ty = self.ltys[pl[0]]
        for pr in pl[1]:
            k = pr[0]
            t = p.T[ty]
            if k == 'd':
                if t['k'] in ('ptr', 'ref'):
                    ty = t['to']
                else:
                    raise Unsupported('deref of ' + t['str'])
            elif k == 'f':
                ty = pr[2]
            elif k in ('i', 'ci'):
                ty = t['elem']
            elif k == 'oc':
                ty = pr[1]
            elif k == 'ss':
                ty = ty     # arrays become slices: only used behind references
        return ty

    def op_ty(self, o):
        if o[0] == 'p':
            return self.place_ty(o[1])
        if o[0] == 'rc':
            return None
        return o[1]

    # ---- places --------------------------------------------------------------------------
    def base_addr(self, l):
        size = self.p.size(self.ltys[l])
        nm = 'local'

        def f(fr):
            i = fr.r[l]
            if i is None:
                i = fr.r[l] = fr.st.mem.new(size, nm)
            return Ptr(i, 0)
        return f

    def addr(self, pl):
        """closure -> (pointer, meta)"""
        p, ip = self.p, self.ip
        l, prs = pl
        ty = self.ltys[l]
        prs = list(prs)
        i = 0
        if self.kind[l] in ('r', 't'):
            if not prs or prs[0][0] != 'd':
                raise Unsupported('address of register')

            def cur(fr, l=l):
                v = fr.r[l]
                if v.__class__ is Fat:
                    return v.p, v.m
                return v, None
            ty = p.T[ty]['to']
            i = 1
        elif self.kind[l] == 'z':
            al = p.align(ty)

            def cur(fr, al=al):
                return al or 1, None
        else:
            ba = self.base_addr(l)

            def cur(fr, ba=ba):
                return ba(fr), None
        variant = None
        while i < len(prs):
            pr = prs[i]
            k = pr[0]
            if k == 'd':
                to = p.T[ty]
                if to['k'] not in ('ptr', 'ref'):
                    raise Unsupported('deref of ' + to['str'])
                cur = self._deref(cur, ty)
                ty = to['to']
            elif k == 'f':
                off = p.field_off(ty, pr[1], variant)
                cur = self._plus(cur, off)
                ty = pr[2]
                variant = None
            elif k == 'dc':
                variant = pr[1]
            elif k == 'i':
                es = p.size(p.T[ty]['elem'])
                cur = self._index(cur, pr[1], es)
                ty = p.T[ty]['elem']
            elif k == 'ci':
                t = p.T[ty]
                es = p.size(t['elem'])
                if pr[3]:
                    if t['k'] == 'array':
                        cur = self._plus(cur, es * (t['len'] - pr[1]))
                    else:
                        cur = self._fromend(cur, es, pr[1])
                else:
                    cur = self._plus(cur, es * pr[1])
                ty = t['elem']
            elif k == 'ss':
                t = p.T[ty]
                es = p.size(t['elem'])
                cur = self._subslice(cur, es, pr[1], pr[2], pr[3], t['len'] if t['k'] == 'array' else None)
            elif k == 'oc':
                ty = pr[1]
            i += 1
        return cur

    def _plus(self, cur, off):
        if off == 0:
            return lambda fr: (cur(fr)[0], cur(fr)[1]) if False else cur(fr)

        def f(fr):
            q, m = cur(fr)
            if q.__class__ is int:
                return q + off, m
            o = q.o
            return Ptr(q.a, o + off if o.__class__ is int else add(o, off)), m
        return f

    def _index(self, cur, l, es):
        get = self.getter([l, []])

        def f(fr):
            q, m = cur(fr)
            x = get(fr)
            if q.__class__ is int:
                return q, None
            if x.__class__ is int:
                o = q.o
                return Ptr(q.a, o + x * es if o.__class__ is int else add(o, x * es)), None
            return Ptr(q.a, add(q.o, scale(norm(x, 64), es))), None
        return f

    def _fromend(self, cur, es, n):
        def f(fr):
            q, m = cur(fr)
            return Ptr(q.a, add(q.o, scale(sub(m, n), es))), None
        return f

    def _subslice(self, cur, es, a, b, fromend, n):
        def f(fr):
            q, m = cur(fr)
            ln = n if n is not None else m
            end = sub(ln, b) if fromend else b
            return (Ptr(q.a, add(q.o, es * a)) if q.__class__ is not int else q), sub(end, a)
        return f

    def _deref(self, cur, ty):
        ip = self.ip

        def f(fr):
            q, _ = cur(fr)
            v = ip.load(fr.st, q, ty)
            if v.__class__ is Fat:
                return v.p, v.m
            return v, None
        return f

    def getter(self, pl):
        l, prs = pl
        k = self.kind[l]
        ip, p = self.ip, self.p
        if k == 'r' and not prs:
            return lambda fr: fr.r[l]
        if k == 't' and (not prs or (len(prs) == 1 and prs[0][0] == 'f')):
            if not prs:
                def g(fr):
                    v = fr.r[l]
                    return list(v) if v is not None else [UNDEF, UNDEF]
                return g
            i = prs[0][1]
            return lambda fr: fr.r[l][i]
        ty = self.place_ty(pl)
        if p.cls(ty) == 'z':
            return lambda fr: Blob(0, [])
        a = self.addr(pl)
        if p.cls(ty) == 's':
            sz = p.size(ty)

            def g(fr):
                q, _ = a(fr)
                st = fr.st
                if q.__class__ is Ptr and q.o.__class__ is int:
                    al = st.mem.m.get(q.a)
                    if al is not None:
                        c = al.cells.get(q.o)
                        if c is not None and c[0] == sz:
                            return c[1]
                return ip.load(st, q, ty)
            return g

        def g(fr):
            return ip.load(fr.st, a(fr)[0], ty)
        return g

    def setter(self, pl):
        l, prs = pl
        k = self.kind[l]
        ip, p = self.ip, self.p
        if k == 'r' and not prs:
            def s(fr, v):
                fr.r[l] = v
            return s
        if k == 't' and (not prs or (len(prs) == 1 and prs[0][0] == 'f')):
            if not prs:
                tty = self.ltys[l]

                def s(fr, v):
                    if v.__class__ is Blob:
                        v = [ip.sub_val(v, o, ft) for _, o, ft in p.fields(tty)]
                    fr.r[l] = v
                return s
            i = prs[0][1]

            def s(fr, v):
                if fr.r[l] is None:
                    fr.r[l] = [UNDEF, UNDEF]
                fr.r[l][i] = v
            return s
        ty = self.place_ty(pl)
        if p.cls(ty) == 'z':
            return lambda fr, v: None
        a = self.addr(pl)

        def s(fr, v):
            if v.__class__ is list:
                v = Blob(p.size(ty), ip.cells_of(v, ty))
            ip.store(fr.st, a(fr)[0], ty, v)
        return s

    # ---- operands ------------------------------------------------------------------------
    def operand(self, o):
        k = o[0]
        ip, p = self.ip, self.p
        if k == 'p':
            return self.getter(o[1])
        if k == 'c':
            ty, m = o[1], o[2]
            if not m['ptrs'] and p.cls(ty) == 's':
                v = ip.const_val(None, ty, m)
                return lambda fr: v
            if not m['ptrs']:
                v = ip.const_val(None, ty, m)
                return lambda fr: v
            return lambda fr: ip.const_val(fr.st, ty, m)
        if k == 'fn':
            v = FnV(o[2])
            return lambda fr: v
        if k in ('z', 'u'):
            ty = o[1]
            if k == 'z':
                return lambda fr: Blob(0, [])

            def f(fr):
                raise Unsupported('unevaluated constant')
            return f
        if k == 'rc':
            v = 1 if o[1] in ('overflow_checks', 'OverflowChecks', 'ub_checks', 'UbChecks') and False else 0
            return lambda fr: v
        raise Unsupported('operand ' + k)

    # ---- blocks --------------------------------------------------------------------------
    def block(self, b):
        c = self._c[b]
        if c is None:
            stm, term = self.blocks[b]
            fs = []
            for s in stm:
                f = self.stmt(s)
                if f is not None:
                    fs.append(f)
            c = self._c[b] = (fs, self.term(term))
        return c

    def stmt(self, s):
        k = s[0]
        if k == '=':
            try:
                rv = self.rvalue(s[3], self.place_ty(s[2]))
                st = self.setter(s[2])
            except Unsupported as e:
                msg = str(e)

                def f(fr):
                    raise Unsupported(msg)
                return f
            return lambda fr: st(fr, rv(fr))
        if k == 'sd':
            ty = self.place_ty(s[2])
            a = self.addr(s[2])
            v = s[3]
            ip = self.ip
            return lambda fr: ip_set_discr(ip, fr.st, a(fr)[0], ty, v)
        if k == 'cpy':
            src, dst, n = [self.operand(o) for o in s[2:5]]
            es = self.p.size(self.p.T[self.op_ty(s[2])]['to'])
            ip = self.ip
            return lambda fr: ip_copy(ip, fr.st, src(fr), dst(fr), n(fr), es)
        return None

    def rvalue(self, rv, dty):
        k = rv[0]
        p, ip = self.p, self.ip
        if k == 'use':
            return self.operand(rv[1])
        if k == 'ref':
            a = self.addr(rv[1])
            if p.cls(dty) == 'f':
                def f(fr):
                    q, m = a(fr)
                    return Fat(q, m)
                return f
            return lambda fr: a(fr)[0]
        if k == 'bin':
            return self.binop(rv[1], rv[2], rv[3], dty)
        if k == 'chk':
            return self.chkop(rv[1], rv[2], rv[3])
        if k == 'un':
            return self.unop(rv[1], rv[2], dty)
        if k == 'cast':
            return self.cast(rv, dty)
        if k == 'agg':
            return self.agg(rv[1], rv[2], dty)
        if k == 'discr':
            ty = self.place_ty(rv[1])
            if p.cls(ty) in 'sz' and p.T[ty]['k'] != 'adt':
                return lambda fr: 0
            a = self.addr(rv[1])
            return lambda fr: ip_get_discr(ip, fr.st, a(fr)[0], ty)
        if k == 'len':
            ty = self.place_ty(rv[1])
            t = p.T[ty]
            if t['k'] == 'array':
                n = t['len']
                return lambda fr: n
            a = self.addr(rv[1])
            return lambda fr: a(fr)[1]
        if k == 'repeat':
            o, n = self.operand(rv[1]), rv[2]
            ety = self.op_ty(rv[1])
            es = p.size(ety)
            if isinstance(n, str):
                n = int(n)

            def f(fr):
                v = o(fr)
                if n * es > 1 << 16:
                    raise Unsupported('large array')
                one = ip.cells_of(v, ety)
                return Blob(n * es, [(i * es + oo, s, x) for i in range(n) for oo, s, x in one])
            return f
        raise Unsupported('rvalue ' + k)

    def agg(self, kind, ops, dty):
        p, ip = self.p, self.ip
        fs = [self.operand(o) for o in ops]
        tys = [self.op_ty(o) for o in ops]
        k = kind[0]
        if k == 'array':
            es = p.size(kind[1])
            offs = [es * i for i in range(len(ops))]
            variant = None
        elif k == 'tuple':
            offs = [p.field_off(dty, i) for i in range(len(ops))]
        elif k == 'closure':
            offs = [p.field_off(dty, i) for i in range(len(ops))]
        elif k == 'rawptr':
            a, b = fs
            if p.cls(dty) == 'f':
                return lambda fr: Fat(a(fr), b(fr))
            return lambda fr: a(fr)
        elif k == 'adt':
            variant = kind[2]
            if kind[3] is not None:
                offs = [0]
            else:
                offs = [p.field_off(dty, i, variant) for i in range(len(ops))]
        else:
            raise Unsupported('aggregate ' + str(k))
        size = p.size(dty)
        parts = [(f, t, o) for f, t, o in zip(fs, tys, offs) if p.cls(t) != 'z']
        cls = p.cls(dty)
        isenum = k == 'adt' and p.T[dty]['adt'] == 'enum'

        def f(fr):
            cells = []
            for g, t, o in parts:
                cells += ip.cells_of(g(fr), t, o)
            if isenum:
                cells = cells + discr_cells(ip, dty, variant)
            if cls == 's':
                return cells[0][2]
            cells.sort(key=lambda c: c[0])
            return Blob(size, cells)
        return f

    def int_operand(self, o):
        """operand as (getter, width, signed)"""
        w = self.p.width(self.op_ty(o))
        return self.operand(o), w

    def binop(self, op, x, y, dty):
        p, ip = self.p, self.ip
        tx = self.op_ty(x)
        w = p.width(tx)
        gx, gy = self.operand(x), self.operand(y)
        if op == 'Offset':
            es = p.size(p.T[tx]['to'])

            def f(fr):
                a, n = gx(fr), gy(fr)
                return ptr_add(a, scale(n, es))
            return f
        if p.cls(tx) == 'f' or (w is None):
            if op in ('Eq', 'Ne'):
                def f(fr):
                    a, b = gx(fr), gy(fr)
                    r = conj(ptr_eq(a.p, b.p), EQ(sub(a.m, b.m)))
                    return r if op == 'Eq' else sub(1, r)
                return f
            raise Unsupported('binop on ' + p.T[tx]['str'])
        bits, sg = w
        wy = p.width(self.op_ty(y)) or (64, False)
        return make_bin(op, gx, gy, bits, sg, wy)

    def chkop(self, op, x, y):
        bits, sg = self.p.width(self.op_ty(x))
        gx, gy = self.operand(x), self.operand(y)
        lo = -(1 << (bits - 1)) if sg else 0
        hi = lo + (1 << bits) - 1

        def f(fr):
            a, b = gx(fr), gy(fr)
            if a.__class__ is int and b.__class__ is int:
                r = a + b if op == 'Add' else a - b if op == 'Sub' else a * b
                if lo <= r <= hi:
                    return [r, 0]
                return [((r - lo) & ((1 << bits) - 1)) + lo, 1]
            if a.__class__ is Ptr or b.__class__ is Ptr:
                raise Unsupported('pointer arithmetic')
            tonum_(a), tonum_(b)
            a, b = norm(a, bits, sg), norm(b, bits, sg)
            r = vadd(a, b) if op == 'Add' else vsub(a, b) if op == 'Sub' else vmul(a, b)
            l, h = interval(r)
            if l >= lo and h <= hi:
                return [r, 0]
            if l > hi or h < lo:
                return [r, 1]
            l, h = tight(r)
            if l >= lo and h <= hi:
                return [r, 0]
            ok = 1
            if l < lo:
                ok = conj(ok, flag(sub(r, lo)))
            if h > hi:
                ok = conj(ok, flag(sub(hi, r)))
            return [r, sub(1, ok)]
        return f

    def unop(self, op, x, dty):
        p = self.p
        g = self.operand(x)
        tx = self.op_ty(x)
        if op == 'PtrMetadata':
            if p.cls(tx) == 'f':
                return lambda fr: g(fr).m
            return lambda fr: Blob(0, [])
        bits, sg = p.width(tx)
        lo = -(1 << (bits - 1)) if sg else 0
        if op == 'Not':
            if bits == 1:
                return lambda fr: (1 - g(fr)) if g(fr).__class__ is int else sub(1, tonum_(g(fr)))

            def f(fr):
                v = g(fr)
                if v.__class__ is int:
                    return ((~v - lo) & ((1 << bits) - 1)) + lo
                v = sub(-1, tonum_(v))
                l, h = interval(v)
                if not sg and l < 0 and h < 0 and l >= -(1 << bits):
                    v = add(v, 1 << bits)
                return v
            return f
        if op == 'Neg':
            def f(fr):
                v = g(fr)
                if v.__class__ is int:
                    return ((-v - lo) & ((1 << bits) - 1)) + lo
                return neg(tonum_(v))
            return f
        raise Unsupported('unop ' + op)

    def cast(self, rv, dty):
        p, ip = self.p, self.ip
        kind, o = rv[1], rv[2]
        g = self.operand(o)
        sty = self.op_ty(o)
        if kind == 'IntToInt':
            t = p.T[sty]
            if t['k'] == 'adt':     # C-like enum
                raise Unsupported('enum cast')
            (w1, s1), (w2, s2) = p.width(sty), p.width(dty)
            lo2 = -(1 << (w2 - 1)) if s2 else 0
            m2 = (1 << w2) - 1

            def f(fr):
                v = g(fr)
                if v.__class__ is int:
                    return ((v - lo2) & m2) + lo2
                if v.__class__ is Ptr:
                    return v
                tonum_(v)
                if w2 > w1:
                    return norm(v, w1, s1)
                return v
            return f
        if kind in ('PtrToPtr', 'PC:MutToConst', 'PC:ArrayToPointer', 'PC:UnsafeFnPointer', 'FnPtrToPtr'):
            if p.cls(sty) == 'f' and p.cls(dty) == 's':
                return lambda fr: g(fr).p
            return g
        if kind.startswith('PC:Unsize'):
            st_, dt = p.T[sty], p.T[dty]
            if st_['k'] in ('ptr', 'ref') and p.T[st_['to']]['k'] == 'array':
                n = p.T[st_['to']]['len']
                return lambda fr: Fat(g(fr), n)
            vt = rv[4] if len(rv) > 4 else None
            if st_['k'] in ('ptr', 'ref'):
                return lambda fr: Fat(g(fr), VtV(('unsize', sty)))
            raise Unsupported('unsize ' + st_['str'])
        if kind.startswith('PC:ReifyFn') or kind.startswith('PC:ClosureFn'):
            inst = rv[4]
            return lambda fr: FnV(inst)
        if kind == 'Transmute':
            cs, cd = p.cls(sty), p.cls(dty)
            ss, ds = p.size(sty), p.size(dty)
            ws, wd = p.width(sty), p.width(dty)

            def f(fr):
                v = g(fr)
                if cs == cd == 's':
                    if v.__class__ is int and wd:
                        lo = -(1 << (wd[0] - 1)) if wd[1] else 0
                        return ((v - lo) & ((1 << (8 * ds)) - 1)) + lo
                    return v
                cells = ip.cells_of(v, sty)
                if cd == 'm':
                    return Blob(ds, cells)
                al = Alloc(max(ss, ds), 'transmute')
                for oo, s, x in cells:
                    al.cells[oo] = (s, x)
                if cd == 's':
                    return ip.fix(fr.st, load_cell(al, 0, ds), dty)
                if cd == 'f':
                    return Fat(load_cell(al, 0, 8), load_cell(al, 8, 8))
                return Blob(0, [])
            return f
        if kind in ('PtrExposeAddr', 'PointerExposeProvenance', 'PtrFromExposed', 'PointerWithExposedProvenance'):
            return g
        if kind == 'Subtype':
            return g
        raise Unsupported('cast ' + kind)

    # ---- terminators ----------------------------------------------------------------------
    def term(self, t):
        k = t[0]
        p, ip = self.p, self.ip
        if k == 'goto':
            b = t[2]

            def f(ip, st, fr):
                fr.bb = b
            return f
        if k == 'ret':
            return lambda ip, st, fr: ip.ret(st, fr)
        if k == 'drop':
            b = t[3]
            di = t[4]
            if ip.drop_relevant(di):
                # a destructor with effects of its own: run the drop glue
                a = self.addr(t[2])
                fat = p.cls(self.ip.get_code(di).ltys[1]) == 'f'

                def f(ip, st, fr):
                    q, m = a(fr)
                    fr.span = t[1]
                    return ip.call(st, fr, di, [Fat(q, m) if fat else q], lambda fr, v: None, b, t[1])
                return f

            def f(ip, st, fr):
                fr.bb = b
            return f
        if k == 'unreachable':
            def f(ip, st, fr):
                raise Unsupported('unreachable code reached in %s' % p.name[fr.inst])
            return f
        if k == 'switch':
            return self.switch(t)
        if k == 'assert':
            cond, exp, msg, b = self.operand(t[2]), t[3], t[4], t[5]
            span = t[1]

            def f(ip, st, fr):
                c = cond(fr)
                if c.__class__ is Poly:
                    c = ip.apply_known(st, norm(c, 1))
                if c.__class__ is int:
                    if bool(c) == exp:
                        fr.bb = b
                        return None
                    return ip.mk_panic(st, fr, msg, span)
                good = c if exp else sub(1, c)
                bad = st.fork()
                res = []
                if ip.assume(bad, sub(1, good)):
                    ip.add_panic(bad, bad.frames[-1], msg, span)
                if not ip.assume(st, good):
                    return []
                fr.bb = b
                return None
            return f
        if k == 'call':
            return self.callterm(t)
        if k == 'resume':
            def f(ip, st, fr):
                raise Unsupported('unwind')
            return f

        def f(ip, st, fr):
            raise Unsupported('terminator ' + k)
        return f

    def switch(self, t):
        o, cases, other, ty = self.operand(t[2]), t[3], t[4], t[5]
        w = self.p.width(ty)
        bits, sg = w if w else (128, False)
        m = {}
        for v, b in cases:
            v = int(v)
            if sg and v >> (bits - 1) & 1:
                v -= 1 << bits
            m[v] = b

        def f(ip, st, fr):
            v = o(fr)
            if v.__class__ is int:
                fr.bb = m.get(v, other)
                return None
            if v.__class__ is not Poly:
                raise Unsupported('switch on %r' % (v,))
            v = ip.apply_known(st, norm(v, bits, sg))
            if v.__class__ is int:
                fr.bb = m.get(v, other)
                return None
            outs = []
            rest = 1
            lo, hi = interval(v)
            todo = []
            for val, b in m.items():
                if val < lo or val > hi:
                    continue
                c = ip.apply_known(st, EQ(sub(v, val)))
                if c.__class__ is int:
                    if c:
                        fr.bb = b
                        return None
                    continue
                todo.append((c, b))
                rest = pmul(rest, sub(1, bvs(c)))
            if not todo:
                fr.bb = other
                return None
            ip.on_branch(st, fr, v)
            ip.base = st.fork()
            allc = todo + ([(rest, other)] if not (is_c(rest) and rest == 0) else [])
            n = len(allc)
            for i, (c, b) in enumerate(allc):
                s = st.fork() if i < n - 1 else st
                if ip.assume(s, c):
                    s.frames[-1].bb = b
                    outs.append(s)
            return outs
        return f

    def callterm(self, t):
        sp, fo, args, dest, target = t[1], t[2], t[3], t[4], t[5]
        ip, p = self.ip, self.p
        gs = [self.operand(a) for a in args]
        tys = [self.op_ty(a) for a in args]
        try:
            ds = self.setter(dest)
        except Unsupported:
            ds = None
        tup = None
        if tys and tys[-1] is not None and p.T[tys[-1]]['k'] == 'tuple':
            tup = tys[-1]
        fg = self.operand(fo) if not (fo[0] == 'fn' and fo[2] is not None) else None
        inst0 = fo[2] if fo[0] == 'fn' else None
        fname = None
        if inst0 is None and fo[0] == 'fn':
            fname = p.T[fo[1]].get('name') or p.T[fo[1]]['str']

        def f(ip, st, fr):
            a = [g(fr) for g in gs]
            i = inst0
            if i is None:
                if fname is not None:
                    raise Unsupported('unresolved call to %s' % fname)
                v = fg(fr)
                if v.__class__ is not FnV:
                    raise Unsupported('indirect call')
                i = v.inst
            if tup is not None and a[-1].__class__ is Blob:
                a[-1] = Blob(a[-1].size, a[-1].cells, tup)
            fr.span = sp
            ip.cur_tys = tys
            return ip.call(st, fr, i, a, ds, target, sp)
        return f


def known_nonneg(st, a):
    """a >= 0 by a comparison already decided on this path"""
    at = atoms_of(a)
    for b, v in st.known.items():
        if KIND[b] == 'GE':
            D = fpoly(DATA[b])
            if D.__class__ is Poly and atoms_of(D) & at:
                d = sub(a, D) if v else add(add(a, D), 1)
                if interval(d)[0] >= 0:
                    return True
    return False


def bvs(c):
    return bv(c)


def tonum_(v):
    if v is UNDEF:
        raise Unsupported('use of an uninitialised value')
    if v.__class__ is Ptr or v.__class__ is FnV:
        raise Unsupported('arithmetic on a pointer')
    return v


def ptr_add(a, d):
    if a.__class__ is Fat:
        return Fat(ptr_add(a.p, d), a.m)
    if a.__class__ is Ptr:
        return Ptr(a.a, add(a.o, d))
    return add(a, d)


def ptr_eq(a, b):
    if a.__class__ is Ptr and b.__class__ is Ptr:
        if a.a != b.a:
            return 0
        return EQ(sub(a.o, b.o))
    if a.__class__ is Ptr or b.__class__ is Ptr:
        return 0
    if isinstance(a, (FnV, VtV)) or isinstance(b, (FnV, VtV)):
        raise Unsupported('function pointer comparison')
    return EQ(sub(a, b))


def make_bin(op, gx, gy, bits, sg, wy):
    full = (1 << bits) - 1
    lo = -(1 << (bits - 1)) if sg else 0

    def wrap(r):
        return ((r - lo) & full) + lo
    if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
        o = op[:3]

        def f(fr):
            a, b = gx(fr), gy(fr)
            if a.__class__ is int and b.__class__ is int:
                return wrap(a + b if o == 'Add' else a - b if o == 'Sub' else a * b)
            if a.__class__ is Ptr or b.__class__ is Ptr:
                if o == 'Sub' and a.__class__ is Ptr and b.__class__ is Ptr and a.a == b.a:
                    return sub(a.o, b.o)
                if a.__class__ is Ptr:
                    return Ptr(a.a, add(a.o, b) if o == 'Add' else sub(a.o, b))
            tonum_(a), tonum_(b)
            r = vadd(a, b) if o == 'Add' else vsub(a, b) if o == 'Sub' else vmul(a, b)
            return wrap(r) if r.__class__ is int else r
        return f
    if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
        def f(fr):
            a, b = gx(fr), gy(fr)
            if a.__class__ is int and b.__class__ is int:
                return int(a == b if op == 'Eq' else a != b if op == 'Ne' else a < b if op == 'Lt' else
                           a <= b if op == 'Le' else a > b if op == 'Gt' else a >= b)
            if a.__class__ is Ptr or b.__class__ is Ptr:
                if op in ('Eq', 'Ne'):
                    r = ptr_eq(a, b)
                    return r if op == 'Eq' else sub(1, r)
                if a.__class__ is Ptr and b.__class__ is Ptr and a.a == b.a:
                    a, b = a.o, b.o
                else:
                    raise Unsupported('pointer order')
            tonum_(a), tonum_(b)
            a, b = norm(a, bits, sg), norm(b, bits, sg)
            if op == 'Eq':
                return EQ(sub(a, b))
            if op == 'Ne':
                return sub(1, EQ(sub(a, b)))
            if op == 'Ge':
                return flag(sub(a, b))
            if op == 'Lt':
                return sub(1, flag(sub(a, b)))
            if op == 'Le':
                return flag(sub(b, a))
            return sub(1, flag(sub(b, a)))
        return f
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        fn = {'BitAnd': band, 'BitOr': bor, 'BitXor': bxor}[op]

        def f(fr):
            a, b = gx(fr), gy(fr)
            if a.__class__ is int and b.__class__ is int:
                return a & b if op == 'BitAnd' else a | b if op == 'BitOr' else a ^ b
            tonum_(a), tonum_(b)
            r = fn(a, b, bits)
            return wrap(r) if r.__class__ is int else r
        return f
    if op in ('Shl', 'ShlUnchecked', 'Shr', 'ShrUnchecked'):
        left = op.startswith('Shl')

        def f(fr):
            a, b = gx(fr), gy(fr)
            if b.__class__ is not int:
                b = norm(tonum_(b), *wy)
                if b.__class__ is not int:
                    return sym_shift(a, b, bits, sg, left, wrap)
            b &= bits - 1
            if a.__class__ is int:
                return wrap(a << b) if left else a >> b
            tonum_(a)
            if left:
                # only the low bits survive: keep it exact when they fit
                return scale(a, 1 << b) if b else a
            return F(norm(a, bits, sg), b)
        return f
    if op in ('Div', 'Rem'):
        def f(fr):
            a, b = gx(fr), gy(fr)
            if a.__class__ is int and b.__class__ is int:
                if b == 0:
                    raise Unsupported('division by zero')
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return q if op == 'Div' else a - b * q
            a, b = norm(tonum_(a), bits, sg), norm(tonum_(b), bits, sg)
            if b.__class__ is int and b > 0 and (interval(a)[0] >= 0 or known_nonneg(fr.st, a)):
                if b & (b - 1) == 0:
                    k = b.bit_length() - 1
                    return F(a, k) if op == 'Div' else M(a, k)
                l, h = interval(a)
                fr.st.env["div"] = fr.st.env.get("div", ()) + (fr.inst,)
                if l // b == h // b:
                    return l // b if op == 'Div' else sub(a, (l // b) * b)
                q = pa(atom('DIV', (key(a), b), l // b, h // b))
                return q if op == 'Div' else M2(a, q, b)
            raise Unsupported('division')
        return f
    if op == 'Cmp':
        def f(fr):
            a, b = gx(fr), gy(fr)
            if a.__class__ is Ptr or b.__class__ is Ptr:
                raise Unsupported('three-way comparison of pointers')
            if not (a.__class__ is int and b.__class__ is int):
                a, b = norm(tonum_(a), bits, sg), norm(tonum_(b), bits, sg)
            d = sub(a, b)
            return Blob(1, [(0, 1, sub(add(GE(d), GE(sub(d, 1))), 1))])
        return f
    raise Unsupported('binop ' + op)


def M2(a, q, b):
    r = sub(a, scale(q, b))
    register(r, 0, b - 1)
    return r


def sym_shift(a, b, bits, sg, left, wrap):
    lo, hi = interval(b)
    if lo < 0 or hi >= bits or hi - lo > 64:
        raise Unsupported('shift by an unknown amount')
    out = 0
    for k in range(lo, hi + 1):
        e = EQ(sub(b, k))
        if is_c(e) and e == 0:
            continue
        if left:
            r = norm(scale(a, 1 << k), bits, sg)
        else:
            r = F(norm(a, bits, sg), k)
        out = vadd(out, vmul(bv(e), r))
    return out


# ---- enums --------------------------------------------------------------------------------
def discr_cells(ip, ty, variant):
    l = ip.p.T[ty]['layout']
    v = l['variants']
    if v[0] != 'multi':
        return []
    toff, (tsz, tsg), enc = v[1], v[2], v[3]
    if enc[0] == 'direct':
        d = int(ip.p.T[ty]['variants'][variant]['discr']) & ((1 << (8 * tsz)) - 1)
        return [(toff, tsz, d if not (tsg and d >> (8 * tsz - 1)) else d - (1 << (8 * tsz)))]
    _, unt, start, end, ns = enc
    if variant == unt:
        return []
    val = (int(ns) + variant - start) & ((1 << (8 * tsz)) - 1)
    if tsg and val >> (8 * tsz - 1):
        val -= 1 << (8 * tsz)
    return [(toff, tsz, val)]


def ip_set_discr(ip, st, q, ty, variant):
    for o, s, v in discr_cells(ip, ty, variant):
        store_cell(st.mem.w(q.a), q.o + o, s, v)


def ip_get_discr(ip, st, q, ty):
    t = ip.p.T[ty]
    l = t['layout']
    v = l['variants']
    if t['k'] != 'adt':
        return 0
    if v[0] == 'single':
        return int(t['variants'][v[1]]['discr']) if t['variants'] else 0
    if v[0] == 'empty':
        raise Unsupported('uninhabited')
    toff, (tsz, tsg), enc = v[1], v[2], v[3]
    al = st.mem.m[q.a]
    if q.o.__class__ is not int:
        idx, cs = ip.candidates(q.o, st)
        ds = {ip_get_discr(ip, st, Ptr(q.a, o), ty) for _, o in cs}
        if len(ds) == 1:
            return ds.pop()
        raise Unsupported('selection among variants')
    tag = ip.fix(st, load_cell(al, q.o + toff, tsz), None)
    if tag is UNDEF:
        raise Unsupported('uninitialised enum')
    if enc[0] == 'direct':
        return tag
    _, unt, start, end, ns = enc
    ns = int(ns)
    ud = int(t['variants'][unt]['discr'])
    if tag.__class__ is int:
        rel = (tag - ns) & ((1 << (8 * tsz)) - 1)
        if rel <= end - start:
            return int(t['variants'][start + rel]['discr'])
        return ud
    if tag.__class__ is Poly:
        tag = norm(tag, 8 * tsz, False)
        lo, hi = interval(tag)
        n = end - start + 1
        if hi < ns or lo > ns + n - 1:
            return ud
        raise Unsupported('symbolic niche')
    return ud


def ip_copy(ip, st, src, dst, n, es):
    """copy_nonoverlapping"""
    if n.__class__ is int and n * es == 0:
        return
    if src.__class__ is Ptr and dst.__class__ is Ptr and n.__class__ is int and src.o.__class__ is int and dst.o.__class__ is int:
        al = st.mem.m[src.a]
        ip.bounds(st, al, src.o, n * es)
        ip.bounds(st, st.mem.m[dst.a], dst.o, n * es)
        b = ip.load_blob(st, al, src.o, n * es, None) if not al.segs else None
        if b is not None:
            ip.store_blob(st.mem.w(dst.a), dst.o, b, n * es)
            return
    if es == 1:
        ip.bounds(st, st.mem.m[src.a], src.o, n)
        ip.bounds(st, st.mem.m[dst.a], dst.o, n)
        items = rope_read(st.mem.m[src.a], src.o, n)
        rope_write(st.mem.w(dst.a), dst.o, items)
        return
    raise Unsupported('symbolic copy')
