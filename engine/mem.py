"""Abstract memory: allocations with typed cells over value-numbered scalars."""
from poly import *
from domain import *
import domain as D_


class Ptr:
    __slots__ = ('a', 'o')

    def __init__(self, a, o):
        self.a, self.o = a, o

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.a, self.o if is_c(self.o) else show(self.o))

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.a == x.a and self.o == x.o

    def __hash__(self):
        return hash((self.a, self.o))


class Fat:
    __slots__ = ('p', 'm')

    def __init__(self, p, m):
        self.p, self.m = p, m

    def __repr__(self):
        return 'Fat(%r,%r)' % (self.p, self.m)

    def __eq__(self, x):
        return isinstance(x, Fat) and self.p == x.p and self.m == x.m


class FnV:
    __slots__ = ('inst',)

    def __init__(self, inst):
        self.inst = inst

    def __repr__(self):
        return 'FnV(%d)' % self.inst


class VtV:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Obj:
    """opaque object stored in memory (hash state); immutable"""
    __slots__ = ('kind', 'data')

    def __init__(self, kind, data):
        self.kind, self.data = kind, data

    def __repr__(self):
        return 'Obj(%s,%d)' % (self.kind, len(self.data))


class Blob:
    __slots__ = ('size', 'cells', 'segs')

    def __init__(self, size, cells, segs=None):
        self.size, self.cells, self.segs = size, cells, segs


class Const:
    """parsed constant memory"""
    __slots__ = ('b', 'ptrs', 'uninit', 'mut')

    def __init__(self, m):
        h = m['bytes']
        self.uninit = None
        if '_' in h:
            self.uninit = frozenset(i for i in range(len(h) // 2) if h[2 * i] == '_')
            h = h.replace('_', '0')
        self.b = bytes.fromhex(h)
        self.ptrs = {o: a for o, a in m['ptrs']}


class Alloc:
    __slots__ = ('size', 'cells', 'const', 'sym', 'segs', 'name')

    def __init__(self, size, name='', const=None, sym=None):
        self.size = size
        self.cells = {}
        self.const = const      # Const or None
        self.sym = sym          # name of a symbolic byte source or None
        self.segs = None        # [(off, item)] data at symbolic offsets, see rope_*
        self.name = name

    def copy(self):
        n = Alloc.__new__(Alloc)
        n.size, n.cells, n.const, n.sym, n.name = self.size, dict(self.cells), self.const, self.sym, self.name
        n.segs = list(self.segs) if self.segs else None
        return n


SYMLO = {}


def byte_atom(name, i):
    return pa(atom('byte', (name, i), 0, 255))


class MemError(Exception):
    pass


class Memory:
    """allocation id -> Alloc, copy on write between partitions"""
    __slots__ = ('m', 'own', 'next')
    counter = [1 << 20]

    def __init__(self):
        self.m = {}
        self.own = set()

    def fork(self):
        n = Memory()
        n.m = dict(self.m)
        self.own = set()
        return n

    def new(self, size, name='', const=None, sym=None):
        i = Memory.counter[0]
        Memory.counter[0] = i + 1
        self.m[i] = Alloc(size, name, const, sym)
        self.own.add(i)
        return i

    def w(self, i):
        a = self.m[i]
        if i not in self.own:
            a = a.copy()
            self.m[i] = a
            self.own.add(i)
        return a


def scalar_bytes(v, size):
    """split a scalar of `size` bytes into byte values"""
    if v is UNDEF:
        return [UNDEF] * size
    if is_c(v):
        v &= (1 << (8 * size)) - 1
        return [(v >> (8 * i)) & 255 for i in range(size)]
    if isinstance(v, Poly):
        v = norm(v, 8 * size, False)
        return [M(F(v, 8 * i), 8) for i in range(size)]
    raise MemError('bytes of %r' % (v,))


def explode(al, off):
    """replace the cell at off by byte cells"""
    size, v = al.cells.pop(off)
    if isinstance(v, (Ptr, FnV, VtV, Obj, Fat)):
        return      # partially overwritten pointer: gone
    for i, b in enumerate(scalar_bytes(v, size)):
        al.cells[off + i] = (1, b)


def clear(al, off, size):
    """drop whatever overlaps [off, off+size)"""
    cells = al.cells
    c = cells.get(off)
    if c is not None and c[0] == size:
        del cells[off]
        return
    # a cell starting before off
    for k in range(1, 9):
        c = cells.get(off - k)
        if c is not None:
            if c[0] > k:
                explode(al, off - k)
            break
    o = off
    end = off + size
    while o < end:
        c = cells.get(o)
        if c is None:
            o += 1
            continue
        if o + c[0] > end:
            explode(al, o)
            continue
        del cells[o]
        o += c[0]
    if al.const is not None or al.sym is not None:
        # reads fall through to the backing store: shadow it
        pass


def store_cell(al, off, size, v):
    cells = al.cells
    c = cells.get(off)
    if c is None or c[0] != size:
        clear(al, off, size)
        if c is None:
            for k in range(1, 8):
                c2 = cells.get(off - k)
                if c2 is not None and c2[0] > k:
                    explode(al, off - k)
                    break
    cells[off] = (size, v)


def const_scalar(al, off, size):
    c = al.const
    if size == 8:
        p = c.ptrs.get(off)
        if p is not None:
            return ('ptr', p, int.from_bytes(c.b[off:off + 8], 'little'))
    if c.uninit and any((off + i) in c.uninit for i in range(size)):
        return UNDEF
    if off + size > len(c.b):
        raise MemError('constant read out of bounds')
    return int.from_bytes(c.b[off:off + size], 'little')


def load_cell(al, off, size):
    c = al.cells.get(off)
    if c is not None and c[0] == size:
        return c[1]
    if not is_c(al.size) is False and is_c(al.size) and off + size > al.size:
        raise MemError('read out of bounds: %s off %d size %d of %s' % (al.name, off, size, al.size))
    # compose from bytes
    if c is None and not any(al.cells.get(off - k) and al.cells[off - k][0] > k for k in range(1, 8)) \
            and not any((off + k) in al.cells for k in range(size)):
        if al.const is not None:
            return const_scalar(al, off, size)
        if al.sym is not None:
            r = 0
            for i in range(size):
                r = add(r, scale(byte_atom(al.sym, off + i), 1 << (8 * i)))
            return r
        return UNDEF
    out = []
    i = 0
    while i < size:
        o = off + i
        c = al.cells.get(o)
        if c is not None and c[0] <= size - i:
            out.append((i, c[1], c[0]))
            i += c[0]
            continue
        if c is not None:
            b = scalar_bytes(c[1], c[0])
            out.append((i, b[0], 1))
            i += 1
            continue
        for k in range(1, 8):
            c = al.cells.get(o - k)
            if c is not None:
                break
        if c is not None and c[0] > k:
            out.append((i, scalar_bytes(c[1], c[0])[k], 1))
        elif al.const is not None:
            out.append((i, const_scalar(al, o, 1), 1))
        elif al.sym is not None:
            out.append((i, byte_atom(al.sym, o), 1))
        else:
            out.append((i, UNDEF, 1))
        i += 1
    r = 0
    for i, v, s in out:
        if v is UNDEF:
            return UNDEF
        if not isinstance(v, (int, Poly)):
            raise MemError('mixed read')
        if isinstance(v, Poly):
            v = norm(v, 8 * s, False)
        r = add(r, scale(v, 1 << (8 * i)))
    return r


# ---- byte ropes: sequences of bytes, possibly of symbolic length ---------------------
# item: int | Poly (one byte)  or ('s', source name, offset, length) with symbolic length
def rope_len(items):
    n = 0
    for it in items:
        n = add(n, it[3]) if isinstance(it, tuple) else add(n, 1)
    return n


def rope_read(al, off, ln):
    """bytes [off, off+ln) of an allocation"""
    if is_c(off) and is_c(ln):
        return [load_cell(al, off + i, 1) for i in range(ln)] if not al.segs else _rope_mixed(al, off, ln)
    if al.sym is not None and not al.cells and not al.segs:
        return [('s', al.sym, key(off) if is_c(off) else off, ln)]
    return _rope_mixed(al, off, ln)


def _rope_mixed(al, off, ln):
    # whole content of a rope allocation
    if not (is_c(off)):
        raise Unsupported('read of a byte sequence at a symbolic offset')
    items = []
    pos = off
    end = add(off, ln)
    segs = al.segs or []
    while True:
        if pos == end:
            return items
        if is_c(pos) and (not is_c(end) or pos < end):
            hit = [it for o, it in segs if o == pos]
            if hit:
                it = hit[0]
                items.append(it)
                pos = add(pos, it[3] if isinstance(it, tuple) else 1)
                continue
            v = load_cell(al, pos, 1)
            if v is UNDEF:
                raise Unsupported('byte sequence with unknown content')
            items.append(v)
            pos += 1
            if len(items) > 5000:
                raise Unsupported('long byte sequence')
            continue
        hit = [it for o, it in segs if o == pos]
        if not hit:
            raise Unsupported('byte sequence split at a symbolic position')
        it = hit[0]
        items.append(it)
        pos = add(pos, it[3] if isinstance(it, tuple) else 1)


def rope_write(al, off, items):
    pos = off
    for it in items:
        if is_c(pos) and not isinstance(it, tuple):
            store_cell(al, pos, 1, it)
        else:
            al.segs = al.segs or []
            al.segs = [s for s in al.segs if s[0] != pos]
            al.segs.append((pos, it))
        pos = add(pos, it[3] if isinstance(it, tuple) else 1)


def rope_key(items):
    return tuple(('s', it[1], key(it[2]), key(it[3])) if isinstance(it, tuple) else key(it) for it in items)
