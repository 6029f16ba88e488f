"""The variable-time double-scalar multiplication s*B + t*P (signed sliding windows).

Rule A (recoding): for every scalar s < q the digit list (power_j, addend_j) written by the recoding satisfies
  sum addend_j * 2^power_j = s, addend_j odd, |addend_j| < 2^(bits+1), powers strictly decreasing, followed by a
  record with power -1; no index leaves the table.
Rule B (evaluation): with digit lists of that kind for s and t, every path of the evaluation returns s*B + t*P.
Both loops are data-dependent; each is decided by an inductive step at its header (loops.py)."""
from loops import *

SBITS = 446


def fresh(name, lo, hi):
    return lo if lo == hi else pa(atom('loop', name + (lo, hi), lo, hi))


class Recode(Cutter):
    def __init__(self, ctx, inst, tb, nrec, rsize, what):
        self.ctx, self.what, self.tb, self.nrec, self.rsize = ctx, what, tb, nrec, rsize
        ip = Interp(ctx.prog, natives.resolver)
        PT.install(ip)
        Cutter.__init__(self, ip, Recode.handle)
        ip.log_store = self.log
        ip.stream_load = self.read
        self.inst = inst
        self.uid = 0

    # -- set-up
    def start(self):
        ip, p = self.ip, self.ip.p
        st = State()
        code = ip.get_code(self.inst)
        self.ctl = st.mem.new(self.nrec * self.rsize, 'control')
        al = st.mem.w(self.ctl)
        for o in range(0, self.nrec * self.rsize, 8):
            al.cells[o] = (8, 0)
        self.sc = st.mem.new(56, 'scalar')
        al = st.mem.w(self.sc)
        self.limb = []
        for i in range(14):
            a = pa(atom('limb', ('wnaf', i), 0, (1 << 32) - 1 if i < 13 else (1 << (SBITS - 416)) - 1))
            self.limb.append(a)
            al.cells[4 * i] = (4, a)
        self.chunks = []
        for i in range(14):
            self.chunks += [M(self.limb[i], 16), F(self.limb[i], 16)]
        args = []
        for i in range(1, code.argc + 1):
            t = p.T[code.ltys[i]]
            if t['k'] in ('ref', 'ptr') and p.cls(code.ltys[i]) == 'f':
                args.append(Fat(Ptr(self.ctl, 0), self.nrec))
            elif t['k'] in ('ref', 'ptr') and p.is_limbs(t['to']) == 'S':
                args.append(Ptr(self.sc, 0))
            elif p.is_limbs(code.ltys[i]) == 'S':
                args.append(ip.load(st, Ptr(self.sc, 0), code.ltys[i]))
            elif t['k'] in ('uint', 'int'):
                args.append(self.tb)
            else:
                raise Unsupported('signature of the recoding')
        ip.push(st, self.inst, args)
        self.ncut = 0
        self.W = 1
        self.nread = 0
        self.carry = 0          # value carried over from the previous cut (poly)
        self.base = None
        self.field = None       # record offsets (power, addend)
        self.digs = {}
        return st

    def log(self, st, p, ty, v):
        if p.a != self.ctl:
            return False
        if self.ip.p.cls(ty) == 's':
            st.events.append(('put', p.o, v))
        else:
            for o, s, x in v.cells:
                st.events.append(('put', add(p.o, o), x))
        return True

    def read(self, st, p, ty):
        if p.a == self.ctl and p.o.__class__ is not int:
            raise SplitPos()
        return None

    def split_hook(self, st, fr, v):
        for a in atoms_of(v):
            if KIND[a] in ('GE', 'EQ', 'BV') and any(KIND[b] == 'loop' and b in self.posatoms
                                                    for b in closure(a)):
                raise SplitPos()
        return False

    def fail(self, text):
        raise Viol(self.what, '%s: %s' % (self.what, text))

    # -- one data-dependent loop head
    def handle(self, st):
        ip, tb = self.ip, self.tb
        fr = st.frames[-1]
        inst, hdr, depth = fr.inst, fr.bb, len(st.frames)
        live = live_in(ip, inst, hdr)
        c0 = reg_cells(ip, st, depth, live)
        # the window: the one live value that depends on the scalar
        cand = [k for k, v in c0.items() if v.__class__ is Poly and not (self.ncut and v == self.pos)
                and not (k[0] == 'm' and v in self.limb)]
        if not cand and self.ncut and self.carry == 0:
            return self.step(st)        # nothing left to recode
        if len(cand) != 1:
            self.fail('the recoding loop carries %d scalar-dependent values' % len(cand))
        vk = cand[0]
        x0 = c0[vk]
        h0, h1 = fresh(('h0', 'probe'), 0, (1 << tb) - 1), fresh(('h1', 'probe'), 0, 1 << (16 - tb))
        s = st.fork()
        put_cell(s, depth, vk, add(1, add(scale(h0, 2), scale(h1, 1 << (tb + 2)))))
        back, left, outs = self.iterate(s, depth, inst, hdr)
        if not back:
            self.fail('an odd window produces no digit')
        vary = set()
        for s in back:
            c1 = reg_cells(ip, s, depth, live)
            vary |= varying(c0, c1)
        cnt = []
        for k in vary - {vk}:
            x = c0.get(k)
            ds = [sub(reg_cells(ip, s, depth, live)[k], x) for s in back] if x.__class__ in (int, Poly) else [None]
            if set(ds) == {-1}:
                cnt.append(k)
            elif k[0] == 'm' and x is None:
                continue            # a temporary of the body
            else:
                self.fail('the recoding loop carries a value of an unexpected kind')
        if len(cnt) != 1:
            self.fail('the recoding loop has %d positions moving by one record per digit' % len(cnt))
        ck = cnt[0]
        p0 = c0[ck]
        self.glue(st, x0)
        if self.base is None:
            if p0.__class__ is not int:
                self.fail('the first digit has no fixed position')
            self.base = p0
        elif p0 != self.pos:
            self.fail('digits are not written contiguously')
        self.ncut += 1
        hi = interval(x0)[1]
        if interval(x0)[0] < 0:
            self.fail('the window can become negative')
        m = max(hi - 1, 0).bit_length()
        maxd = SBITS // (tb + 2) + 1
        lowest = self.base - maxd
        n = self.ncut
        posi = fresh(('pos', n, 1), lowest + 1, self.base)
        pose = fresh(('pos', n, 0), lowest, self.base)
        # inductive step, by number of trailing zeros
        for z in range(16):
            for b in (0, 1):
                e = z + tb + 2
                h1hi = ((1 << m) - (1 << z) - (b << (e - 1))) >> e
                if (1 << m) < (1 << z) + (b << (e - 1)):
                    continue
                h0 = fresh(('h0', n, z, b), 0, (1 << tb) - 1)
                h1 = fresh(('h1', n, z, b), 0, h1hi)
                C = add(add(1 << z, scale(h0, 1 << (z + 1))), add(b << (e - 1), scale(h1, 1 << e)))
                s = st.fork()
                s.events = []
                for k in vary:
                    if k not in (ck, vk):
                        put_cell(s, depth, k, UNDEF) if k[0] != 'm' else None
                put_cell(s, depth, vk, C)
                put_cell(s, depth, ck, posi)
                npend = len(ip.pending)
                back, left, outs = self.iterate(s, depth, inst, hdr)
                if len(ip.pending) > npend or outs:
                    bad = (ip.pending[npend:] + outs)[0]
                    self.fail('a digit can panic: %s' % bad.msg)
                if left or len(back) != 1:
                    self.fail('a window with %d trailing zeros does not produce exactly one digit' % z)
                self.digit(back[0], depth, vk, ck, posi, C, h0, h1, z, b, e)
        # exit
        hx = fresh(('hx', n), 0, (1 << m) >> 16)
        s = st.fork()
        for k in vary:
            if k not in (ck, vk) and k[0] != 'm':
                put_cell(s, depth, k, UNDEF)
        put_cell(s, depth, vk, scale(hx, 1 << 16))
        put_cell(s, depth, ck, pose)
        back, left, outs = self.iterate(s, depth, inst, hdr)
        if back or outs or len(left) != 1:
            self.fail('an empty window is not passed over')
        self.W <<= 16
        self.carry = hx
        self.pos = pose
        self.posatoms.add(linear_atom(pose))
        self.ctx.obligations.append((self.what + ': window %d conserves the value' % n, True))
        return left

    def glue(self, st, x0):
        """the window at its header is the carried value plus the next unread bits of the scalar"""
        rest = sub(x0, self.carry)
        sh = 0 if self.ncut == 0 else 16
        want = 0
        i = self.nread
        while True:
            if rest == want:
                self.nread = i
                return
            if i >= len(self.chunks) or sh > 48:
                break
            want = add(want, scale(self.chunks[i], 1 << sh))
            i += 1
            sh += 16
        self.fail('window %d is not the carried value plus the next bits of the scalar' % (self.ncut + 1))

    def digit(self, s, depth, vk, ck, posi, C, h0, h1, z, b, e):
        ip = self.ip
        c1 = reg_cells(ip, s, depth, {vk[1], ck[1]})
        Cn, pn = c1[vk], c1[ck]
        if Cn != scale(add(h1, b), 1 << e):
            self.fail('a digit leaves the window %s, expected %s (trailing zeros %d)'
                      % (show(Cn), show(scale(add(h1, b), 1 << e)), z))
        if sub(pn, posi) != -1:
            self.fail('the write position does not move by one record per digit')
        put = {}
        for ev in s.events:
            if ev[0] == 'put':
                o = sub(ev[1], scale(posi, self.rsize))
                if o.__class__ is not int or not 0 <= o < self.rsize:
                    self.fail('a digit is not written at the current position')
                put[o] = ev[2]
        d = add(1 - (b << (self.tb + 1)), scale(h0, 2))
        pw = z + self.W.bit_length() - 1
        f = [(o, q) for o in put for q in put if o != q and put[o] == pw and put[q] == d]
        if len(put) != 2 or len(f) != 1:
            self.fail('the digit for trailing zeros %d is written as %s, expected power %d and addend %s'
                      % (z, {o: show(v) if v.__class__ is Poly else v for o, v in put.items()}, pw, show(d)))
        if self.field is None:
            self.field = f[0]
        elif self.field != f[0]:
            self.fail('power and addend change places')

    # -- the tail
    def finish(self, outs):
        nret = 0
        for o in outs + self.ip.pending:
            if o.kind != 'ret':
                self.fail('can panic: %s' % o.msg)
            k = o.st.env['pos']
            nd = self.base - k
            al = o.st.mem.m[self.ctl]
            for j in range(nd + 1):
                for fi, nm in enumerate(('power', 'addend')):
                    got = load_cell(al, j * self.rsize + self.field[fi], 8)
                    exp = self.dig(k + 1 + j, nm) if j < nd else (-1 if fi == 0 else None)
                    if exp is not None and norm64(got) != exp:
                        self.fail('with %d digits, record %d is not %s (%s)' % (nd, j, 'the digit of that rank' if j < nd
                                                                          else 'the end mark', got))
            nret += 1
        return nret

    def dig(self, j, nm):
        return pa(atom('dig', ('ctl', j, nm), -1 if nm == 'power' else -(1 << (self.tb + 1)),
                       SBITS if nm == 'power' else 1 << (self.tb + 1)))

    def main(self):
        for _ in range(12):
            self.posatoms = set()
            self.ip.pending = []
            self.snap = None
            try:
                return self.go()
            except NeedCut as c:
                self.cuts.add((c.inst, c.hdr))
        self.fail('too many data-dependent loops')

    def go(self):
        st = self.start()
        outs, work = [], [st]
        while work:
            st = work.pop()
            while True:
                if st.frames and self.at_cut(st):
                    r = self.handle(st)
                else:
                    snap = st.fork() if self.ncut and 'pos' not in st.env else None
                    try:
                        r = self.step(st)
                    except SplitPos:
                        r = self.split(snap)
                if r is None:
                    continue
                if r.__class__ is Outcome:
                    outs.append(r)
                    break
                if not r:
                    break
                st = r[0]
                work += r[1:]
        if self.nread != len(self.chunks) or interval(self.carry)[1] != 0:
            self.fail('the recoding ends with unread or carried bits of the scalar')
        n = self.finish(outs)
        self.ctx.ob(self.what + ': digits are delivered in order with an end mark (%d lengths)' % n, n > 0)
        self.ctx.visited |= self.ip.visited
        return self

    def split(self, st):
        """case distinction on the number of digits"""
        lo, hi = interval(self.pos)
        a = linear_atom(self.pos)
        out = []
        for k in range(lo, hi + 1):
            s = st.fork()
            s.env['pos'] = k
            al = s.mem.w(self.ctl)
            for j in range(k + 1, self.base + 1):
                for fi, nm in enumerate(('power', 'addend')):
                    al.cells[j * self.rsize + self.field[fi]] = (8, self.dig(j, nm))
            rep = {a: k}
            for fr in s.frames:
                for x in fr.r:
                    for y in (x if x.__class__ is list else [x]):
                        if y.__class__ is Poly:
                            for b in atoms_of(y):
                                if b not in rep and a in closure(b):
                                    rep[b] = reval(b, rep)
            self.ip.replace(s, rep)
            out.append(s)
        return out


class SplitPos(Exception):
    pass


def reval(b, rep):
    """a boolean atom after an atom of its argument became a constant"""
    D = fpoly(DATA[b])
    mp = {}
    for x in atoms_of(D):
        if x in rep:
            mp[x] = rep[x]
        elif KIND[x] in ('GE', 'EQ', 'BV'):
            mp[x] = reval(x, rep)
    D = subst(D, mp)
    return GE(D) if KIND[b] == 'GE' else EQ(D) if KIND[b] == 'EQ' else D


def norm64(v):
    return v - (1 << 64) if v.__class__ is int and v >= 1 << 63 else v


def closure(a, seen=None):
    """atoms a boolean atom is about"""
    seen = set() if seen is None else seen
    if a in seen:
        return seen
    seen.add(a)
    if KIND[a] in ('GE', 'EQ', 'BV'):
        for b in atoms_of(fpoly(DATA[a])):
            closure(b, seen)
    return seen


# ---- difference constraints over the atoms of a partition -----------------------------------------
class DBM:
    """facts x - y <= c collected from the assumptions of a partition"""

    def __init__(self, known, extra=()):
        self.d = {}
        self.nodes = {0}
        ne = []
        for a, v in list(known.items()):
            if KIND[a] not in ('GE', 'EQ'):
                continue
            D = fpoly(DATA[a])
            if KIND[a] == 'GE':
                self.ge(D if v else sub(-1, D))
            elif v:
                self.ge(D)
                self.ge(neg(D))
            else:
                ne.append(D)
        for D in extra:
            self.ge(D)
        for n in list(self.nodes):
            if n:
                self.put(n, 0, HI[n])
                self.put(0, n, -LO[n])
        self.close()
        for _ in range(3):
            ch = False
            for D in ne:
                if self.entails(D):
                    ch |= self.ge(sub(D, 1))
                elif self.entails(neg(D)):
                    ch |= self.ge(sub(neg(D), 1))
            if not ch:
                break
            self.close()

    def lin(self, D):
        """D = x - y + c -> (x, y, c)"""
        c = const_part(D)
        x = y = 0
        if D.__class__ is int:
            return 0, 0, D
        for m, k in D.d.items():
            if not m:
                continue
            t = MONO[m]
            if len(t) != 1 or t[0][1] != 1:
                return None
            if k == 1 and not x:
                x = t[0][0]
            elif k == -1 and not y:
                y = t[0][0]
            else:
                return None
        return x, y, c

    def put(self, x, y, c):
        """x - y <= c"""
        self.nodes |= {x, y}
        if c < self.d.get((x, y), 1 << 80):
            self.d[(x, y)] = c
            return True
        return False

    def ge(self, D):
        t = self.lin(D)
        if t is None:
            return False
        return self.put(t[1], t[0], t[2])

    def close(self):
        d = self.d
        ns = list(self.nodes)
        for k in ns:
            for i in ns:
                a = d.get((i, k))
                if a is None:
                    continue
                for j in ns:
                    b = d.get((k, j))
                    if b is not None and a + b < d.get((i, j), 1 << 80):
                        d[(i, j)] = a + b
        self.bad = any(d.get((n, n), 0) < 0 for n in ns)

    def entails(self, D):
        """D >= 0"""
        if self.__dict__.get('bad'):
            return True
        t = self.lin(D)
        if t is None:
            return interval(D)[0] >= 0
        x, y, c = t
        if x == y:
            return c >= 0
        b = self.d.get((y, x))
        if b is None:
            b1 = self.d.get((y, 0), HI[y] if y else 0)
            b2 = self.d.get((0, x), -LO[x] if x else 0)
            b = b1 + b2
        return b <= c


class Evaluate(Cutter):
    def __init__(self, ctx, inst, sig, what, bounds):
        self.ctx, self.inst, self.sig, self.what, self.bounds = ctx, inst, sig, what, bounds
        ip = Interp(ctx.prog, natives.resolver)
        PT.install(ip)
        Cutter.__init__(self, ip, lambda c, st: self.arrive(st))
        self.prev_call = ip.on_call
        ip.on_call = self.on_call
        ip.stream_load = self.read
        ip.log_store = None
        self.rules = {}

    def fail(self, text):
        raise Viol(self.what, '%s: %s' % (self.what, text))

    def carrier(self, f, bd):
        out = []
        for res in PT.carrier_res('ext', f, True):
            out.append(new_arr('F', res, bd, 0, sum(x << (28 * i) for i, x in enumerate(bd)), False))
        return out

    def start(self):
        ip, p = self.ip, self.ip.p
        tt, sc, pi = self.sig
        st = State()
        code = ip.get_code(self.inst)
        self.streams = {}
        self.arr = []
        GENS.setdefault('PIN', {'kind': 'input'})
        GENS.setdefault('OUT', {'kind': 'input'})
        args = []
        self.scal = {}
        for i in range(1, code.argc + 1):
            if i == pi:
                kind, offs = PT.ptype(ip, tt[i])
                al = st.mem.new(p.size(tt[i]), 'P')
                w = st.mem.w(al)
                for n, A in zip(PT.ORD['ext'], self.carrier({'PIN': 1}, self.bounds)):
                    for j in range(16):
                        w.cells[offs[n] + 4 * j] = (4, pa(A.limbs[j]))
            else:
                al = st.mem.new(56, 'scalar%d' % i)
                w = st.mem.w(al)
                which = sc.index(i)
                for j in range(14):
                    w.cells[4 * j] = (4, pa(atom('limb', ('wnafB', which, j), 0, (1 << 32) - 1)))
                self.scal[which] = [w.cells[4 * j][1] for j in range(14)]
            args.append(Ptr(al, 0) if p.T[code.ltys[i]]['k'] in ('ref', 'ptr') else ip.load(st, Ptr(al, 0), tt[i]))
        ip.push(st, self.inst, args)
        return st

    def on_call(self, ip, st, fr, inst, args, dest, target):
        sl = [a for a in args if a.__class__ is Fat]
        if len(sl) == 1 and inst != self.inst and self.is_recode(inst):
            which = None
            tb = None
            code = ip.get_code(inst)
            rs = None
            for i, a in enumerate(args):
                ty = code.ltys[i + 1]
                t = ip.p.T[ty]
                if a.__class__ is Fat:
                    rs = ip.p.size(ip.p.T[t['to']]['elem'])
                elif a.__class__ is int:
                    tb = a
                else:
                    v = ip.load(st, a, t['to']) if a.__class__ is Ptr else a
                    vs = [x for _, _, x in sorted(v.cells, key=lambda z: z[0])]
                    for w, ls in self.scal.items():
                        if vs == ls:
                            which = w
            f = sl[0]
            if which is None or tb is None or f.m.__class__ is not int or f.p.o != 0 or which in \
                    {x['which'] for x in self.streams.values()}:
                raise Unsupported('recoding of an unknown scalar')
            k = (inst, tb, f.m, rs)
            if k not in self.rules:
                self.rules[k] = Recode(self.ctx, inst, tb, f.m, rs, 'digits of a scalar (%d-bit windows)' % tb).main()
            r = self.rules[k]
            self.streams[f.p.a] = {'which': which, 'tb': tb, 'field': r.field, 'rs': rs, 'n': f.m, 'al': f.p.a}
            w = st.mem.w(f.p.a)
            w.cells = {}
            rt = code.ltys[0]
            if ip.p.cls(rt) == 's':
                dest(fr, fresh(('ndig', which), 0, f.m))
            elif ip.p.cls(rt) == 'z':
                dest(fr, Blob(0, []))
            else:
                raise Unsupported('result of the recoding')
            from interp import DONE
            return DONE
        return self.prev_call(ip, st, fr, inst, args, dest, target) if self.prev_call else None

    def is_recode(self, inst):
        code = self.ip.get_code(inst)
        p = self.ip.p
        tys = [code.ltys[i] for i in range(1, code.argc + 1)]
        lim = [t for t in tys if p.is_limbs(t) == 'S' or (p.T[t]['k'] in ('ref', 'ptr') and p.cls(t) == 's'
                                                         and p.is_limbs(p.T[t]['to']) == 'S')]
        sl = [t for t in tys if p.T[t]['k'] == 'ref' and p.cls(t) == 'f' and p.T[t].get('mut')]
        return len(lim) == 1 and len(sl) == 1 and len(tys) == 3

    def dig(self, s, idx, nm):
        top = (1 << (s['tb'] + 1)) - 1
        if self.reads is not None:
            self.reads[(s['which'], key(idx))] = (s['n'], idx)
        lo, hi = (-1, SBITS) if nm == 'power' else (0 if idx == 0 else -top, top)
        return pa(atom('dig', (s['which'], key(idx), nm), lo, hi))

    def read(self, st, p, ty):
        s = self.streams.get(p.a)
        if s is None:
            return None
        ip = self.ip

        def at(o):
            for fi, nm in enumerate(('power', 'addend')):
                d = sub(o, s['field'][fi])
                if d.__class__ is int:
                    if d % s['rs'] == 0:
                        return self.dig(s, d // s['rs'], nm)
                elif all(c % s['rs'] == 0 for c in d.d.values()):
                    idx = mk({m: c // s['rs'] for m, c in d.d.items()})
                    return self.dig(s, idx, nm)
            raise Unsupported('read inside a digit record')
        if st.mem.m[p.a].cells:
            raise Unsupported('digit table modified')
        if ip.p.cls(ty) == 's':
            return at(p.o)
        return Blob(ip.p.size(ty), sorted((f, 8, at(add(p.o, f))) for f in s['field']))

    # -- phases
    def arrive(self, st):
        self.arr.append(st)
        return []

    def main(self):
        for _ in range(6):
            self.ip.pending = []
            try:
                st = self.start()
                outs = self.run(st)
                break
            except NeedCut as c:
                self.cuts.add((c.inst, c.hdr))
        if len(self.cuts) != 1 or not self.arr:
            self.fail('expected one evaluation loop, found %d' % len(self.cuts))
        if len(self.streams) != 2:
            self.fail('expected two recoded scalars, found %d' % len(self.streams))
        self.nopanic(outs + self.ip.pending)
        self.sid = {s['which']: s for s in self.streams.values()}
        early = [o for o in outs if not DBM(o.st.known).bad]
        for o in early:
            d = DBM(o.st.known)
            for w, s in self.sid.items():
                if not d.entails(sub(-1, self.dig(s, 0, 'power'))):
                    self.fail('a path returns before the digits of a scalar are used')
            if self.form_of(o) != {}:
                self.fail('the multiple by zero scalars is not the neutral element')
        self.ctx.ob(self.what + ': zero scalars give the neutral element', True)
        self.induct()

    def nopanic(self, outs):
        for o in outs:
            if o.kind != 'ret' and not DBM(o.st.known).bad:
                self.fail('can panic: %s' % o.msg)

    def form_of(self, o):
        tt = self.sig[0]
        kind, offs = PT.ptype(self.ip, tt[0])
        d = {c[0]: c[2] for c in o.val.cells}
        return self.form_cells(d, offs)

    def form_cells(self, d, offs):
        info = [PT.arr_of([d.get(offs[n] + 4 * j, 0) for j in range(16)]) for n in PT.ORD['ext']]
        if any(i is None for i in info[:3]):
            return None
        rs = [i[0] if i is not None else 0 for i in info]
        return PT.find_form(rs)

    def points_of(self, st, depth):
        """memory locals of the loop frame that hold points: local -> offsets"""
        ip = self.ip
        code = st.frames[depth - 1].body
        return {l: PT.ptype(ip, code.ltys[l])[1] for l in code.memlocals
                if PT.ptype(ip, code.ltys[l]) and PT.ptype(ip, code.ltys[l])[0] == 'ext'}

    def induct(self):
        ip = self.ip
        (inst, hdr), = self.cuts
        live = live_in(ip, inst, hdr)
        S0 = [s for s in self.arr if not DBM(s.known).bad]
        depth = len(S0[0].frames)
        if any(len(s.frames) != depth for s in S0):
            self.fail('the evaluation loop is entered from different depths')
        pts = self.points_of(S0[0], depth)
        vary, diffs = set(), {}
        cs = [reg_cells(ip, s, depth, live) for s in S0]
        for c in cs[1:]:
            vary |= varying(cs[0], c)
        for s, c in zip(S0, cs):
            back, left, outs = self.iterate(s.fork(), depth, inst, hdr)
            for b in back:
                if DBM(b.known).bad:
                    continue
                c1 = reg_cells(ip, b, depth, live)
                for k in varying(c, c1):
                    vary.add(k)
                    if c.get(k).__class__ in (int, Poly) and c1.get(k).__class__ in (int, Poly):
                        diffs.setdefault(k, set()).add(sub(c1[k], c[k]))
        ip.pending = []
        # dead temporaries (not live at the loop header): emptied in the generic state, reading them fails
        dead = {k[1] for k in vary if k[0] == 'm' and k[1] not in live}
        vary = {k for k in vary if not (k[0] == 'm' and k[1] in dead)}
        vp = {k[1] for k in vary if k[0] == 'm' and k[1] in pts}
        if len(vp) != 1:
            self.fail('the evaluation loop accumulates in %d points' % len(vp))
        acc = vp.pop()
        scal = [k for k in vary if not (k[0] == 'm' and k[1] == acc)]
        gen = S0[0].fork()
        gen.conds, gen.known, gen.events = [], {}, []
        for l in dead:
            if gen.frames[depth - 1].r[l] is not None:
                gen.mem.w(gen.frames[depth - 1].r[l]).cells = {}
        atoms = {}
        n = max(s['n'] for s in self.sid.values())
        for k in scal:
            c = cs[0].get(k)
            ds = diffs.get(k, set())
            if c.__class__ not in (int, Poly):
                if k[0] == 'm':
                    continue
                put_cell(gen, depth, k, UNDEF)
                continue
            if ds <= {0, 1} and ds:
                atoms[k] = fresh(('idx', k), 0, n - 1)
            elif ds <= {0, -1} and ds:
                atoms[k] = fresh(('bit', k), -1, SBITS)
            elif not ds or all(d.__class__ is Poly for d in ds) or k[0] != 'r':
                atoms[k] = None
            else:
                self.fail('the evaluation loop carries a value of an unexpected kind')
        for k, a in list(atoms.items()):
            if a is None:
                put_cell(gen, depth, k, UNDEF)
                del atoms[k]
            else:
                put_cell(gen, depth, k, a)
        offs = pts[acc]
        self.own_ranges(gen, depth, inst, hdr, acc, offs, atoms, S0)
        # limb bounds of the accumulator: join over the entries, then checked inductive
        bd = self.acc_bounds([(s, depth) for s in S0], acc, offs)
        back = None
        for _ in range(4):
            g = gen.fork()
            self.set_acc(g, depth, acc, offs, bd)
            ip.pending = []
            back, left, outs = self.iterate(g, depth, inst, hdr)
            back = [b for b in back if not DBM(b.known).bad]
            nb = self.acc_bounds([(b, depth) for b in back], acc, offs)
            if all(x <= y for u, v in zip(nb, bd) for x, y in zip(u, v)):
                break
            bd = [tuple(max(x, y) for x, y in zip(u, v)) for u, v in zip(nb, bd)]
        else:
            self.fail('the limbs of the accumulator are not bounded')
        self.nopanic(outs + ip.pending)
        self.steps(back, depth, acc, offs, atoms, live)
        self.entries(S0, cs, depth, acc, offs, atoms)
        self.exits(left, outs)

    def own_ranges(self, gen, depth, inst, hdr, acc, offs, atoms, S0):
        """which digit sequence each index counter walks: one iteration, observing the reads; a counter of a
        sequence of n records ranges over 0..n-1 (it stops at the terminating record, wnaf lemma)"""
        ip = self.ip
        self.reads = {}
        ip.pending = []
        g = gen.fork()
        self.set_acc(g, depth, acc, offs, self.acc_bounds([(s, depth) for s in S0], acc, offs))
        self.iterate(g, depth, inst, hdr)
        for k, a in list(atoms.items()):
            x = linear_atom(a)
            if DATA[x][0] != 'idx':
                continue
            ns = {n for n, i in self.reads.values() if i == a}
            if len(ns) > 1:
                self.fail('one counter indexes digits of different scalars')
            if ns:
                atoms[k] = fresh(('idx', k), 0, ns.pop() - 1)
                put_cell(gen, depth, k, atoms[k])
        self.reads = None
        ip.pending = []

    reads = None

    def acc_bounds(self, sts, acc, offs):
        out = [tuple([0] * 16) for _ in range(4)]
        for s, depth in sts:
            al = s.mem.m[s.frames[depth - 1].r[acc]]
            for i, n in enumerate(PT.ORD['ext']):
                info = PT.arr_of([al.cells[offs[n] + 4 * j][1] for j in range(16)])
                if info is None:
                    self.fail('the accumulator is not a field element array')
                out[i] = tuple(max(x, y) for x, y in zip(out[i], info[1]))
        return out

    def set_acc(self, g, depth, acc, offs, bd):
        al = g.mem.w(g.frames[depth - 1].r[acc])
        for i, (n, res) in enumerate(zip(PT.ORD['ext'], PT.carrier_res('ext', {'OUT': 1}, False))):
            A = new_arr('F', res, bd[i], 0, sum(x << (28 * j) for j, x in enumerate(bd[i])), False)
            for j in range(16):
                al.cells[offs[n] + 4 * j] = (4, pa(A.limbs[j]))

    def acc_form(self, st, depth, acc, offs):
        al = st.mem.m[st.frames[depth - 1].r[acc]]
        self.ip.points.mem(self.ip, st, Ptr(st.frames[depth - 1].r[acc], 0), st.frames[depth - 1].body.ltys[acc], None)
        al = st.mem.m[st.frames[depth - 1].r[acc]]
        return self.form_cells({o: v for o, (s, v) in al.cells.items()}, offs)

    GEN = {0: 'B', 1: 'PIN'}

    def steps(self, back, depth, acc, offs, atoms, live):
        """one iteration: OUT' = 2*OUT + (the digits whose power is the current bit)"""
        if not back:
            self.fail('the evaluation loop has no iteration')
        self.iota, self.kappa = None, {}
        for b in back:
            for a, v in b.known.items():
                if KIND[a] == 'EQ':
                    D = fpoly(DATA[a])
                    ps = [x for x in atoms_of(D) if KIND[x] == 'dig' and DATA[x][2] == 'power']
                    if len(ps) == 1 and D.d.get(amono(ps[0])) in (1, -1):
                        io = sub(pa(ps[0]), D) if D.d[amono(ps[0])] == 1 else add(pa(ps[0]), D)
                        w = DATA[ps[0]][0]
                        ka = fpoly(DATA[ps[0]][1]) if DATA[ps[0]][1].__class__ is not int else DATA[ps[0]][1]
                        if self.iota is None:
                            self.iota = io
                        if io != self.iota or self.kappa.setdefault(w, ka) != ka:
                            self.fail('digits are compared with different bit positions')
        if self.iota is None or set(self.kappa) != {0, 1}:
            self.fail('the digits of both scalars are not compared with the current bit')
        for b in back:
            new = reg_cells(self.ip, b, depth, live)
            mp = {linear_atom(a): new[k] for k, a in atoms.items()}
            dbm = DBM(b.known)
            if sub(subst(self.iota, mp), self.iota) != -1:
                self.fail('the bit position does not move by one')
            if not dbm.entails(self.iota):
                self.fail('an iteration runs for a negative bit position')
            f = self.acc_form(b, depth, acc, offs)
            if f is None:
                self.fail('an iteration leaves something that is not a point')
            if f.get('OUT', 0) != 2 or set(f) - {'OUT', 'B', 'PIN', 'T2'}:
                self.fail('an iteration computes %s, expected 2*OUT + digits' % form_text(f))
            for w, s in self.sid.items():
                P = self.dig(s, self.kappa[w], 'power')
                e = EQ(sub(P, self.iota))
                tk = self.ip.apply_known(b, e)
                if tk.__class__ is not int:
                    tk = 0 if not self.possible(b, sub(P, self.iota)) else None
                if tk is None:
                    self.fail('whether a digit is due is not decided in an iteration')
                if sub(subst(self.kappa[w], mp), self.kappa[w]) != tk:
                    self.fail('the digit index does not move exactly when the digit is used')
                self.coef(b, s, w, self.kappa[w], f.get(self.GEN[w], 0), tk)
        self.ctx.ob(self.what + ': an iteration doubles and adds exactly the due digits (%d cases)' % len(back), True)

    def possible(self, b, D):
        d = DBM(b.known)
        return not (d.entails(sub(D, 1)) or d.entails(sub(sub(0, D), 1)))

    def coef(self, st, s, w, idx, c, taken):
        if not taken:
            if c != 0:
                self.fail('a multiple is added although no digit is due')
            return
        A = linear_atom(self.dig(s, idx, 'addend'))
        n = 0
        for v in range(LO[A] | 1, HI[A] + 1, 2):
            env = {A: v}
            ok = True
            for a, k in st.known.items():
                x = atom_at(a, env)
                if x is not None and x != k:
                    ok = False
                    break
            if not ok:
                continue
            n += 1
            got = eval_at(c, env) if c.__class__ is Poly else c
            if got is None or (got - v) % QQ:
                self.fail('the digit %d contributes the multiple %s' % (v, got))
        if n:
            self.seen.setdefault(w, set()).add((idx == 0, n))

    seen = {}

    def entries(self, S0, cs, depth, acc, offs, atoms):
        for s, c in zip(S0, cs):
            mp = {linear_atom(a): c[k] for k, a in atoms.items()}
            io = subst(self.iota, mp)
            f = self.acc_form(s, depth, acc, offs)
            dbm = DBM(s.known)
            if f is None or set(f) - {'B', 'PIN', 'T2'}:
                self.fail('the accumulator does not start as a multiple of the inputs')
            for w, sd in self.sid.items():
                ka = subst(self.kappa[w], mp)
                if ka not in (0, 1):
                    self.fail('the evaluation starts at digit %s' % ka)
                P0 = self.dig(sd, 0, 'power')
                if ka == 1:
                    if not (dbm.entails(sub(P0, add(io, 1))) and dbm.entails(sub(add(io, 1), P0))):
                        self.fail('the first digit is used at another bit position')
                else:
                    if not dbm.entails(sub(io, P0)):
                        self.fail('a leading digit is skipped')
                self.coef(s, sd, w, 0, f.get(self.GEN[w], 0), ka)
        self.ctx.ob(self.what + ': the accumulator starts with the leading digits (%d cases)' % len(S0), True)

    def exits(self, left, outs):
        ip = self.ip
        n = 0
        for st in left:
            if DBM(st.known).bad:
                continue
            if not DBM(st.known).entails(sub(-1, self.iota)):
                self.fail('the loop ends before the last bit')
            ip.pending = []
            self.cuts = set()
            res = self.run(st)
            self.nopanic(res + ip.pending)
            for o in res:
                f = self.form_of(o)
                if f != {'OUT': 1}:
                    self.fail('the result is not the accumulated point')
                kind, offs = PT.ptype(ip, self.sig[0][0])
                d = {c[0]: c[2] for c in o.val.cells}
                for n_ in PT.ORD['ext']:
                    info = PT.arr_of([d.get(offs[n_] + 4 * j, 0) for j in range(16)])
                    if info is None or any(x > y for x, y in zip(info[1], PT.OPQ_OUT)):
                        raise Unsupported('limbs of the result are not bounded')
                n += 1
        self.ctx.ob(self.what + ': the accumulated point is returned', n > 0, 'no path returns')
        self.ctx.visited |= ip.visited


def double_scalar_sig(ip, inst):
    code = ip.get_code(inst)
    tys = [code.ltys[i] for i in range(code.argc + 1)]
    tt = [ip.p.T[t]['to'] if ip.p.T[t]['k'] in ('ref', 'ptr') and ip.p.cls(t) == 's' else t for t in tys]
    pt = [PT.ptype(ip, t) for t in tt]
    sc = [i for i in range(1, len(tt)) if ip.p.is_limbs(tt[i]) == 'S']
    pp = [i for i in range(1, len(tt)) if pt[i] and pt[i][0] == 'ext']
    if pt[0] and pt[0][0] == 'ext' and len(sc) == 2 and len(pp) == 1 and len(tys) == 4:
        return tt, sc, pp[0]
    return None


def spec_wnaf(ctx):
    ip = Interp(ctx.prog, natives.resolver)
    PT.install(ip)
    fs = []
    for i, I in enumerate(ctx.prog.I):
        if I['body'] is not None and I['body']['argc'] == 3 and 'libgoldilocks' in I['name']:
            s = double_scalar_sig(ip, i)
            if s:
                fs.append((i, s))
    if not fs:
        raise Viol('double-scalar multiplication', 'no function from (point, scalar, scalar) to a point is left')
    for i, s in fs:
        nm = ctx.prog.name[i].split('::')[-1]
        bd = PT.OPQ_IN
        try:
            Evaluate(ctx, i, s, nm, bd).main()
        except Unsupported as e:
            raise Viol(nm + ': not analysable', '%s: the analysis cannot follow the code any more (%s)' % (nm, e))
