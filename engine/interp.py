"""Abstract interpreter over MIR (trace-partitioned value-numbering dataflow).

Every basic block is evaluated over abstract values (see domain.py); where a branch condition is
not decided by the abstract state, the state is partitioned and the condition recorded.
Nothing of the analysed program is executed.
"""
import re
import sys
import time
from poly import *
from domain import *
import domain as D_
from mem import *
from prog import Program

sys.setrecursionlimit(20000)


class Frame:
    __slots__ = ('st', 'inst', 'body', 'r', 'bb', 'dest', 'target', 'hook', 'span', 'visits')

import cfg
import merge
import os
TRACE = os.environ.get("VTRACE")


class OutOfBounds(Unsupported):
    pass


class Panic(Exception):
    pass


class State:
    def __init__(self):
        self.mem = Memory()
        self.frames = []
        self.conds = []         # assumed boolean polynomials (= 1)
        self.known = {}         # boolean atom -> 0/1 assumed on this partition
        self.events = []        # ('hash', ...), ('rng', ...), ...
        self.glob = {}          # dump allocation index -> memory id
        self.env = {}           # model-specific data
        self.rep = {}           # input atoms replaced by what this partition knows about them

    def fork(self):
        n = State.__new__(State)
        n.mem = self.mem.fork()
        n.conds = list(self.conds)
        n.known = dict(self.known)
        n.events = list(self.events)
        n.glob = self.glob
        n.env = dict(self.env)
        n.rep = self.rep
        n.frames = []
        for f in self.frames:
            g = Frame()
            g.st = n
            g.inst, g.body, g.bb, g.dest, g.target, g.hook, g.span = f.inst, f.body, f.bb, f.dest, f.target, f.hook, f.span
            g.r = [list(x) if x.__class__ is list else x for x in f.r]
            g.visits = dict(f.visits)
            n.frames.append(g)
        return n


class Outcome:
    __slots__ = ('kind', 'st', 'val', 'msg', 'stack')

    def __init__(self, kind, st, val=None, msg=None, stack=None):
        self.kind, self.st, self.val, self.msg, self.stack = kind, st, val, msg, stack


def tonum(v):
    if v is UNDEF:
        raise Unsupported('use of an uninitialised value')
    return v


def eval_at(x, env):
    """value of a polynomial when the atoms in env have the given values (None: depends on others)"""
    if x.__class__ is int:
        return x
    mp = {}
    for a in atoms_of(x):
        v = atom_at(a, env)
        if v is None:
            return None
        mp[a] = v
    r = subst(x, mp)
    return r if r.__class__ is int else None


def atom_at(a, env):
    if a in env:
        return env[a]
    k = KIND[a]
    if k in ('GE', 'EQ', 'BV'):
        v = eval_at(fpoly(DATA[a]), env)
        return None if v is None else int(v >= 0) if k == 'GE' else int(v == 0) if k == 'EQ' else v
    if k in ('F', 'M'):
        v = eval_at(fpoly(DATA[a][0]), env)
        return None if v is None else v >> DATA[a][1] if k == 'F' else v & ((1 << DATA[a][1]) - 1)
    return None


def base_atoms(x, out=None):
    """atoms that x depends on after looking through comparisons, shifts and masks"""
    out = set() if out is None else out
    if x.__class__ is Poly:
        for a in atoms_of(x):
            k = KIND[a]
            if k in ('GE', 'EQ', 'BV'):
                base_atoms(fpoly(DATA[a]), out)
            elif k in ('F', 'M'):
                base_atoms(fpoly(DATA[a][0]), out)
            else:
                out.add(a)
    return out


def small_values(st, idx, limit=300):
    """values of idx on this path when it depends on a single atom of small range, else None"""
    bs = base_atoms(idx)
    if len(bs) != 1:
        return None
    a = bs.pop()
    if LO[a] is None or HI[a] is None or HI[a] - LO[a] > limit:
        return None
    rel = [(f, v) for f, v in st.known.items() if f == a or (KIND[f] in ('GE', 'EQ', 'BV', 'F', 'M') and base_atoms(pa(f)) == {a})]
    out = set()
    for v in range(LO[a], HI[a] + 1):
        env = {a: v}
        if any(atom_at(f, env) not in (None, k) for f, k in rel):
            continue
        r = eval_at(idx, env)
        if r is None:
            return None
        out.add(r)
    return sorted(out)


class Interp:
    def __init__(self, prog, natives=None):
        self.p = prog
        self.code = {}
        self.droprel = {}
        self.natives = {}       # instance -> model or None
        self.resolver = natives
        self.steps = 0
        self.max_steps = 30_000_000
        self.deadline = None
        self.max_parts = 400
        self.on_return = None
        self.on_call = None
        self.log_store = None   # symbolic-offset stores into a logged array
        self.stream_load = None
        self.visited = set()    # instances analysed
        self.sites = 0
        self.pending = []       # possible panics found on the way
        self.selects = []       # loads at an address that depends on input data
        self.divs = []          # divisions whose time may depend on their operands
        self.branches = []      # branches the abstract state does not decide
        self.base, self.nest, self.merges = None, 0, 0
        self.lenforks = {}
        self.last = None

    # ---- compilation of bodies to closures -------------------------------------------------
    def get_code(self, inst):
        c = self.code.get(inst)
        if c is None:
            c = self.code[inst] = Code(self, inst)
        return c

    # ---- memory access by type -------------------------------------------------------------
    def load(self, st, p, ty):
        c = self.p.cls(ty)
        if c == 'z':
            return Blob(0, [])
        if p.__class__ is int:
            raise Unsupported('load through an integer address')
        o = p.o
        if self.stream_load is not None:
            v = self.stream_load(st, p, ty)
            if v is not None:
                return v
        if o.__class__ is not int:
            self.selects.append((self.p.name[st.frames[-1].inst] if st.frames else '?', p, list(st.conds)))
            return self.select(st, p, ty)
        al = st.mem.m.get(p.a)
        if al is None:
            raise Unsupported('dangling pointer')
        sz = self.p.size(ty)
        if al.size.__class__ is not int or o < 0 or o + sz > al.size:
            self.bounds(st, al, o, sz)
        if c == 's':
            cc = al.cells.get(o)
            if cc is not None and cc[0] == sz:
                return cc[1]
            v = load_cell(al, o, sz)
            return self.fix(st, v, ty)
        if c == 'f':
            return Fat(self.fix(st, load_cell(al, o, 8), None), self.fix(st, load_cell(al, o + 8, 8), None))
        return self.load_blob(st, al, o, sz, ty)

    def bounds(self, st, al, off, size):
        """the access [off, off+size) lies inside the object, or the program is not memory safe here"""
        if off.__class__ is int and size.__class__ is int and al.size.__class__ is int:
            if 0 <= off and off + size <= al.size:
                return
        else:
            lo = self.apply_known(st, GE(off)) if off.__class__ is not int else off >= 0
            hi = self.apply_known(st, GE(sub(al.size, add(off, size))))
            if lo in (1, True) and hi.__class__ is int and hi == 1:
                return
        raise OutOfBounds('memory access outside its object: %s at offset %s of %s, which has %s bytes' % (
            show(size, 1, 3), show(off, 1, 3), al.name or 'an object', show(al.size, 1, 3)))

    def fix(self, st, v, ty):
        """constants become typed values"""
        if v.__class__ is tuple:        # ('ptr', dump alloc, addend)
            return self.global_ptr(st, v[1], v[2])
        if v.__class__ is int and ty is not None:
            w = self.p.width(ty)
            if w and w[1] and v >> (w[0] - 1):
                v -= 1 << w[0]
        return v

    def load_blob(self, st, al, off, size, ty):
        cells = []
        ac = al.cells
        if al.const is None and al.sym is None:
            o, end = off, off + size
            c = ac.get(o)
            if c is None:
                for k in range(1, 8):
                    c2 = ac.get(o - k)
                    if c2 is not None and c2[0] > k:
                        explode(al, o - k)
                        break
            while o < end:
                c = ac.get(o)
                if c is None:
                    o += 1
                    continue
                if o + c[0] > end:
                    explode(al, o)
                    continue
                cells.append((o - off, c[0], c[1]))
                o += c[0]
            return Blob(size, cells)
        lv = self.p.leaves(ty) if ty is not None else None
        if lv is not None:
            for o, s, ft in lv:
                v = self.fix(st, load_cell(al, off + o, s), ft)
                if v is not UNDEF:
                    cells.append((o, s, v))
            return Blob(size, cells)
        o = 0
        while o < size:
            c = ac.get(off + o)
            if c is not None and o + c[0] <= size:
                cells.append((o, c[0], c[1]))
                o += c[0]
                continue
            if al.const is not None and (off + o) in al.const.ptrs and o + 8 <= size:
                cells.append((o, 8, self.fix(st, load_cell(al, off + o, 8), None)))
                o += 8
                continue
            v = load_cell(al, off + o, 1)
            if v is not UNDEF:
                cells.append((o, 1, v))
            o += 1
        return Blob(size, cells)

    def store(self, st, p, ty, v):
        c = self.p.cls(ty)
        if c == 'z':
            return
        if p.__class__ is int:
            raise Unsupported('store through an integer address')
        if p.o.__class__ is not int:
            if self.log_store is not None and self.log_store(st, p, ty, v):
                return
            raise Unsupported('store at a symbolic offset')
        al = st.mem.w(p.a)
        if al.size.__class__ is not int or p.o < 0 or p.o + self.p.size(ty) > al.size:
            self.bounds(st, al, p.o, self.p.size(ty))
        if c == 's':
            store_cell(al, p.o, self.p.size(ty), v)
        elif c == 'f':
            store_cell(al, p.o, 8, v.p)
            store_cell(al, p.o + 8, 8, v.m)
        else:
            self.store_blob(al, p.o, v, self.p.size(ty))

    def store_blob(self, al, off, v, size):
        if v.__class__ is list:     # tuple register
            raise Unsupported('tuple register')
        if al.const is not None or al.sym is not None:
            for o in range(size):
                if (off + o) not in al.cells:
                    pass
        clear(al, off, size) if size <= 64 or any(True for _ in al.cells) else None
        for o, s, x in v.cells:
            al.cells[off + o] = (s, x)

    # ---- symbolic selection ----------------------------------------------------------------
    def candidates(self, o, st=None):
        """offset polynomial -> (index poly, [(value, offset)])"""
        c0 = const_part(o)
        v = sub(o, c0)
        g = content(v)
        idx = mk({m: c // g for m, c in v.d.items()})
        lo, hi = interval(idx)
        if hi - lo > 200:
            lo, hi = tight(idx)
        if hi - lo > 200 or (lo < 0 and st is not None):
            vs = small_values(st, idx) if st is not None else None
            if vs is not None:
                return idx, [(k, c0 + g * k) for k in vs]
        if hi - lo > 200:
            raise Unsupported('selection among %d objects' % (hi - lo + 1))
        return idx, [(k, c0 + g * k) for k in range(lo, hi + 1)]

    def select(self, st, p, ty):
        idx, cs = self.candidates(p.o, st)
        al = st.mem.m[p.a]
        if is_c(al.size):
            for k, o in cs:
                if o < 0 or o + self.p.size(ty) > al.size:
                    raise Unsupported('selection out of bounds')
        vals = [self.load(st, Ptr(p.a, o), ty) for k, o in cs]
        return self.sel_vals(idx, [k for k, _ in cs], vals, ty)

    def sel_vals(self, idx, ks, vals, ty):
        if isinstance(vals[0], Blob):
            kind = self.p.is_limbs(ty)
            if kind:
                r = sel_limbs(kind, idx, ks, vals)
                if r is not None:
                    return r
            t = self.p.T[ty]
            if t['k'] == 'array' and not kind:
                parts = [(self.p.size(t['elem']) * i, t['elem']) for i in range(t['len'])]
            elif t['k'] in ('tuple', 'closure') or (t['k'] == 'adt' and t['adt'] == 'struct'):
                parts = [(o, ft) for _, o, ft in self.p.fields(ty)]
            else:
                parts = None
            n = len(vals[0].cells)
            if parts is not None and not kind:
                cells = []
                for o, ft in parts:
                    sz = self.p.size(ft)
                    subs = []
                    for v in vals:
                        subs.append(Blob(sz, [(co - o, cs, cv) for co, cs, cv in v.cells if o <= co < o + sz]))
                    if self.p.cls(ft) == 'm':
                        r = self.sel_vals(idx, ks, subs, ft)
                        cells += [(co + o, cs, cv) for co, cs, cv in r.cells]
                    elif self.p.cls(ft) == 's':
                        cells.append((o, sz, self.sel_vals(idx, ks, [s.cells[0][2] for s in subs], ft)))
                return Blob(vals[0].size, cells)
            if any([c[:2] for c in v.cells] != [c[:2] for c in vals[0].cells] for v in vals):
                raise Unsupported('selection among differently shaped objects')
            cells = []
            for i in range(n):
                cells.append(vals[0].cells[i][:2] + (self.sel_vals(idx, ks, [v.cells[i][2] for v in vals], None),))
            return Blob(vals[0].size, cells)
        if all(v == vals[0] for v in vals):
            return vals[0]
        if any(not isinstance(v, (int, Poly)) for v in vals):
            raise Unsupported('selection among pointers')
        lo = min(interval(v)[0] for v in vals)
        hi = max(interval(v)[1] for v in vals)
        return pa(atom('SEL', (key(idx), tuple(ks), tuple(key(v) for v in vals)), lo, hi, lo >= 0 and hi <= 1))

    # ---- globals ---------------------------------------------------------------------------
    def global_ptr(self, st, ai, addend=0):
        a = self.p.A[ai]
        k = a['k']
        if k == 'fn':
            return FnV(a['inst'])
        if k == 'vtable':
            return VtV(ai)
        if k in ('mem', 'static'):
            i = st.glob.get(ai)
            m = a.get('mem')
            if m is None or m.get('mut'):
                # its value depends on what ran before: nothing the analysis concludes would hold
                raise Unsupported('mutable global state %s' % (a.get('name') or ''))
            if i is None:
                if m is None:
                    i = st.mem.new(1 << 20, 'static ' + str(a.get('name')))
                else:
                    c = self.p.const(m)
                    i = st.mem.new(len(c.b), 'const%d' % ai, const=c)
                st.glob[ai] = i
            if i not in st.mem.m:
                c = self.p.const(m)
                st.mem.m[i] = Alloc(len(c.b), 'const%d' % ai, const=c)
            return Ptr(i, addend)
        return VtV(ai)

    def const_val(self, st, ty, m):
        c = self.p.const(m)
        k = self.p.cls(ty)
        if k == 'z':
            return Blob(0, [])
        al = Alloc(len(c.b), 'c', const=c)
        if k == 's':
            return self.fix(st, load_cell(al, 0, self.p.size(ty)), ty)
        if k == 'f':
            return Fat(self.fix(st, load_cell(al, 0, 8), None), self.fix(st, load_cell(al, 8, 8), None))
        return self.load_blob(st, al, 0, self.p.size(ty), ty)

    # ---- conditions ------------------------------------------------------------------------
    def apply_known(self, st, x):
        if x.__class__ is Poly and st.known:
            for a in atoms_of(x):
                v = st.known.get(a)
                if v is not None:
                    x = set_atom(x, a, v)
                    if x.__class__ is int:
                        break
        return x

    def assume(self, st, b):
        """restrict the partition to b = 1; False if impossible"""
        b = self.apply_known(st, b)
        if b.__class__ is int:
            return b != 0
        st.conds.append(b)
        todo = {}

        def facts(b):
            # b = product of literals
            for a in sorted(atoms_of(b)):
                if not BOOL[a]:
                    continue
                if set_atom(b, a, 0) == 0:
                    todo[a] = 1
                elif set_atom(b, a, 1) == 0:
                    todo[a] = 0
        facts(b)
        if not todo:
            return True
        rep = {}
        for a, v in list(todo.items()):
            self._implied(st, a, v, rep)
        st.known.update(todo)
        for a, v in todo.items():
            rep[a] = v
        old = {a: subst(v, rep) if v.__class__ is Poly else v for a, v in st.rep.items()}
        old.update(rep)
        st.rep = old
        self.replace(st, rep)
        return True

    def _implied(self, st, a, v, rep):
        """an equation or inequality on one input atom narrows that atom"""
        if KIND[a] in ('EQ', 'GE') or KIND[a] == 'BV':
            D = fpoly(DATA[a])
            ats = atoms_of(D)
            if KIND[a] == 'EQ' and v == 1:
                c0 = const_part(D)
                w = linear_atom(sub(D, c0))
                if w is not None and KIND[w] in ('len', 'byte'):
                    rep[w] = -c0
                else:
                    w = linear_atom(sub(c0, D))
                    if w is not None and KIND[w] in ('len', 'byte'):
                        rep[w] = c0
            if KIND[a] == 'GE' and len(ats) == 1:
                w = next(iter(ats))
                if KIND[w] == 'len' and len([m for m in D.d if m]) == 1:
                    c = D.d.get(amono(w), 0)
                    c0 = const_part(D)
                    if c:
                        if not v:
                            c, c0 = -c, -c0 - 1
                        # c*w + c0 >= 0
                        lo, hi = LO[w], HI[w]
                        if c > 0:
                            lo = max(lo, -((c0) // c))
                        else:
                            hi = min(hi, c0 // -c)
                        if lo == hi:
                            rep[w] = lo
                        elif (lo, hi) != (LO[w], HI[w]):
                            base = DATA[w] if not isinstance(DATA[w], tuple) else DATA[w][0]
                            rep[w] = pa(atom('len', (base, lo, hi), lo, hi))

    def replace(self, st, rep):
        def f(x):
            if x.__class__ is Poly:
                if any(a in rep for a in atoms_of(x)):
                    return subst(x, rep)
                return x
            if x.__class__ is Ptr:
                if x.o.__class__ is Poly:
                    return Ptr(x.a, f(x.o))
                return x
            if x.__class__ is Fat:
                return Fat(f(x.p), f(x.m))
            if x.__class__ is list:
                return [f(y) for y in x]
            return x
        for fr in st.frames:
            fr.r = [f(x) for x in fr.r]
        for i, al in list(st.mem.m.items()):
            if al.const is not None and not al.cells:
                continue
            ch = []
            for o, (s, v) in al.cells.items():
                if v.__class__ in (Poly, Ptr):
                    n = f(v)
                    if n is not v:
                        ch.append((o, s, n))
            sz = f(al.size) if al.size.__class__ is Poly else al.size
            sg = None
            if al.segs:
                sg = [(f(o) if o.__class__ is Poly else o,
                       (it[0], it[1], f(it[2]) if it[2].__class__ is Poly else it[2], f(it[3])) if isinstance(it, tuple) else f(it))
                      for o, it in al.segs]
            if ch or sz is not al.size or sg:
                al = st.mem.w(i)
                al.size = sz
                if sg:
                    al.segs = sg
                for o, s, n in ch:
                    al.cells[o] = (s, n)

    # ---- running ---------------------------------------------------------------------------
    def drop_relevant(self, di):
        """does this drop glue run a destructor that can change values the program observes?
        (releasing memory cannot; SetLenOnDrop and destructors of the crate itself can)"""
        if di is None:
            return False
        r = self.droprel.get(di)
        if r is None:
            seen, work, r = set(), [di], False
            while work and not r:
                i = work.pop()
                if i in seen:
                    continue
                seen.add(i)
                I = self.p.I[i]
                if re.search(r' as (std|core)::ops::(drop::)?Drop>::drop', I['name']):
                    if 'libgoldilocks' in I['name'].split(' as ')[0] and not re.match(
                            r'<(std|alloc|core)::', I['name']) or 'SetLenOnDrop' in I['name']:
                        r = True
                        break
                elif 'drop' not in I['name']:
                    continue
                if I['body'] is None:
                    continue
                for _, t in I['body']['blocks']:
                    if t[0] == 'drop' and t[4] is not None:
                        work.append(t[4])
                    elif t[0] == 'call' and t[2][0] == 'fn' and t[2][2] is not None:
                        work.append(t[2][2])
            self.droprel[di] = r
        return r

    def push(self, st, inst, args, dest=None, target=None, hook=None, span=None):
        code = self.get_code(inst)
        fr = Frame()
        fr.st, fr.inst, fr.body, fr.bb = st, inst, code, 0
        fr.r = [None] * len(code.ltys)
        fr.dest, fr.target, fr.hook, fr.span = dest, target, hook, span
        fr.visits = {}
        if code.spread is not None and len(args) != code.argc:
            # re-tuple
            k = code.spread - 1
            ty = code.ltys[code.spread]
            cells = []
            for (n, o, ft), a in zip(self.p.fields(ty), args[k:]):
                cells += self.cells_of(a, ft, o)
            args = args[:k] + [Blob(self.p.size(ty), cells)]
        elif len(args) != code.argc:
            # untuple the last argument
            last = args[-1]
            k = len(args)
            args = args[:-1]
            if last.__class__ is list:
                args += last
            else:
                n = code.argc - len(args)
                # fields laid out by the tuple type: passed along by the caller
                args += self._untuple(last, code.ltys[k:k + n], n)
        elif (args and args[-1].__class__ is Blob and getattr(args[-1], 'segs', None) is not None
                and args[-1].segs != code.ltys[code.argc] and self.p.T[args[-1].segs]['k'] == 'tuple'
                and len(self.p.fields(args[-1].segs)) == 1):
            args = args[:-1] + self._untuple(args[-1], None, 1)
        for i, a in enumerate(args):
            code.setters[i + 1](fr, a)
        st.frames.append(fr)
        self.visited.add(inst)
        return fr

    def _untuple(self, blob, tys, n):
        tt = getattr(blob, 'segs', None)    # tuple type id stashed by the caller
        if tt is None:
            if n == 0:
                return []
            raise Unsupported('untupled call')
        out = []
        for (nm, o, ft) in self.p.fields(tt):
            out.append(self.sub_val(blob, o, ft))
        return out

    def sub_val(self, blob, off, ty):
        c = self.p.cls(ty)
        if c == 'z':
            return Blob(0, [])
        sz = self.p.size(ty)
        cells = [(o - off, s, v) for o, s, v in blob.cells if off <= o < off + sz]
        if c == 's':
            for o, s, v in cells:
                if o == 0 and s == sz:
                    return v
            return UNDEF
        if c == 'f':
            d = {o: v for o, s, v in cells}
            return Fat(d[0], d[8])
        return Blob(sz, cells)

    def cells_of(self, v, ty, off=0):
        c = self.p.cls(ty)
        if c == 'z':
            return []
        if c == 's':
            return [(off, self.p.size(ty), v)]
        if c == 'f':
            return [(off, 8, v.p), (off + 8, 8, v.m)]
        if v.__class__ is list:
            out = []
            for (n, o, ft), x in zip(self.p.fields(ty), v):
                out += self.cells_of(x, ft, off + o)
            return out
        return [(off + o, s, x) for o, s, x in v.cells]

    def run(self, st, outs=None):
        """run all partitions to completion"""
        outs = [] if outs is None else outs
        self.explore([st], None, outs)
        return outs

    def explore(self, work, stop, outs):
        """follow partitions until they end (outs) or reach stop = (frame depth, block): those are returned.
        Alternatives of an undecided branch are joined where they meet again when they differ little (merge.py)"""
        arr = []
        while work:
            st = work.pop()
            while True:
                if stop is not None:
                    n = len(st.frames)
                    if n < stop[0] or (n == stop[0] and st.frames[-1].bb == stop[1]):
                        arr.append(st)
                        break
                self.base = None
                self.last = st
                try:
                    r = self.step(st)
                except MemError as e:
                    raise Unsupported(str(e))
                if r is None:
                    continue
                if r.__class__ is Outcome:
                    outs.append(r)
                    break
                # list of partitions
                if not r:
                    break
                base = self.base
                if base is not None and len(r) > 1:
                    r = self.joined(base, r, outs)
                    if not r:
                        break
                st = r[0]
                work += r[1:]
                if len(work) + len(outs) > self.max_parts:
                    raise Unsupported('too many partitions')
        return arr

    def joined(self, base, sts, outs):
        fr = base.frames[-1]
        J = cfg.ipdom(self, fr.inst, fr.bb)
        if J is None or self.nest > 600:
            return sts
        self.nest += 1
        try:
            arr = self.explore(list(reversed(sts)), (len(base.frames), J), outs)
        finally:
            self.nest -= 1
        while len(arr) > 1:
            try:
                return [merge.merge(self, base, arr, J)]
            except merge.NoMerge as e:
                if str(e) == 'length':
                    # a loop taking one more step per byte of an input of unbounded length
                    k = (fr.inst, fr.bb)
                    self.lenforks[k] = self.lenforks.get(k, 0) + 1
                    if self.lenforks[k] > 200:
                        raise Unsupported('a loop whose number of turns is the length of an input')
                if TRACE:
                    print('no merge', self.p.name[fr.inst], len(arr), e)
                return arr
        return arr

    def cur_stack(self):
        return self.stack(self.last) if self.last is not None else []

    def stack(self, st):
        return [self.p.name[f.inst] for f in st.frames]

    def step(self, st):
        """one basic block"""
        fr = st.frames[-1]
        code = fr.body
        stm, term = code.block(fr.bb)
        n = len(stm) + 1
        self.steps += n
        if self.steps > self.max_steps:
            raise Unsupported('step limit')
        if self.deadline and (self.steps & 1023) < n and time.time() > self.deadline:
            raise Unsupported('time limit')
        for f in stm:
            f(fr)
        return term(self, st, fr)

    def mk_panic(self, st, fr, msg, span):
        return Outcome('panic', st, None, str(msg), self.stack(st) + [self.p.span(span)])

    def add_panic(self, st, fr, msg, span):
        self.pending.append(self.mk_panic(st, fr, msg, span))

    def on_branch(self, st, fr, v):
        self.branches.append((self.p.name[fr.inst], v, list(st.conds)))

    def ret(self, st, fr):
        code = fr.body
        v = code.get_ret(fr)
        st.frames.pop()
        if self.on_return:
            v = self.on_return(self, st, fr, v)
        mm = st.mem.m
        for l in code.memlocals:
            i = fr.r[l]
            if i is not None:
                mm.pop(i, None)
        if fr.hook is not None:
            h = fr.hook(self, st, fr, v)
            if h is not None:
                return h
        if not st.frames:
            return Outcome('ret', st, v)
        up = st.frames[-1]
        if fr.dest is not None:
            fr.dest(up, v)
        if fr.target is None:
            return Outcome('panic', st, None, 'diverging call returned', self.stack(st))
        up.bb = fr.target
        return None

    def call(self, st, fr, inst, args, dest, target, span):
        self.sites += 1
        m = self.natives.get(inst, 0)
        if m == 0:
            m = self.natives[inst] = self.resolver(self, inst) if self.resolver else None
        if m is not None:
            v = m(self, st, fr, inst, args)
            if v.__class__ is Outcome:
                return v
            if v.__class__ is Parts:
                return v.finish(self, dest, target)
            if v is not INLINE:
                if target is None:
                    return Outcome('panic', st, None, self.p.name[inst], self.stack(st))
                dest(fr, v)
                fr.bb = target
                return None
        I = self.p.I[inst]
        if I['body'] is None:
            raise Unsupported('no body: %s (%s)' % (I['name'], I['kind']))
        if self.on_call:
            r = self.on_call(self, st, fr, inst, args, dest, target)
            if r is DONE:
                fr.bb = target
                return None
            if r is not None:
                return r
        if len(st.frames) > 200:
            raise Unsupported('recursion')
        self.push(st, inst, args, dest, target, None, span)
        return None


class Parts:
    """a native model's case distinction: [(condition, thunk(state) -> value)]"""

    def __init__(self, st, cases):
        self.st, self.cases = st, cases

    def finish(self, ip, dest, target):
        outs = []
        st0 = self.st
        n = len(self.cases)
        for i, (c, th) in enumerate(self.cases):
            s = st0.fork() if i < n - 1 else st0
            if not ip.assume(s, c):
                continue
            fr = s.frames[-1]
            v = th(s)
            if target is None or v.__class__ is Outcome:
                outs.append(v)
                continue
            dest(fr, v)
            fr.bb = target
            outs.append(s)
        res = [o for o in outs if o.__class__ is not Outcome]
        bad = [o for o in outs if o.__class__ is Outcome]
        if bad:
            ip.pending += bad
        return res


class _S:
    pass


INLINE = _S()
DONE = _S()


# ---- selection of limb arrays ---------------------------------------------------------------
def blob_arr(v):
    """the Arr whose limbs the blob holds, in order"""
    c = v.cells
    if not c or len(c) not in (16, 14):
        return None
    x = c[0][2]
    if x.__class__ is not Poly:
        return None
    a = linear_atom(x)
    if a is None or a not in LIMB:
        return None
    A, i = LIMB[a]
    if i != 0 or N[A.kind] != len(c):
        return None
    lm = A.limbs
    for j in range(1, len(c)):
        y = c[j][2]
        if y.__class__ is not Poly or len(y.d) != 1 or y.d.get(amono(lm[j])) != 1:
            return None
    return A


def blob_ints(v):
    if len(v.cells) in (16, 14) and all(x.__class__ is int for _, _, x in v.cells):
        return [x for _, _, x in v.cells]
    return None


def arr_blob(A):
    return Blob(4 * len(A.limbs), [(4 * i, 4, pa(l)) for i, l in enumerate(A.limbs)])


def sel_limbs(kind, idx, ks, vals):
    res, bs, lo, hi, canon = [], None, None, None, True
    rad = RAD[kind]
    for v in vals:
        A = blob_arr(v)
        if A is not None:
            r, b, l, h, cn = A.res, A.bounds, A.vlo, A.vhi, A.canon
        else:
            n = blob_ints(v)
            if n is None:
                return None
            val = sum(x << (rad * i) for i, x in enumerate(n))
            r, b, l, h = val % MOD[kind], tuple(n), val, val
            cn = val < MOD[kind] and all(x < 1 << rad for x in n)
        res.append(r)
        bs = b if bs is None else tuple(max(x, y) for x, y in zip(bs, b))
        lo = l if lo is None else min(lo, l)
        hi = h if hi is None else max(hi, h)
        canon = canon and cn
    if all(r == res[0] for r in res) and canon:
        pass
    sa = pa(atom('SELR', (kind, key(idx), tuple(ks), tuple(key(r) for r in res)), None, None))
    k = ('SELARR', kind, key(idx), tuple(ks), tuple(key(r) for r in res), bs)
    A = _selmemo.get(k)
    if A is None:
        A = _selmemo[k] = new_arr(kind, sa, bs, lo, hi, canon)
    return arr_blob(A)


_selmemo = {}
from code_ import Code      # noqa
