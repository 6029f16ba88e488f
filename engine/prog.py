"""The dumped program: types, layouts, instances."""
import json
from mem import Const


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.T = d['types']
        self.I = d['insts']
        self.A = d['allocs']
        self.files = d['files']
        self.roots = {n: i for n, i in d['roots']}
        self.name = [i['name'] for i in self.I]
        self._cls = {}
        self._const = {}
        self.by_name = {}
        for k, i in enumerate(self.I):
            self.by_name.setdefault(i['name'], []).append(k)

    def span(self, s):
        """human readable position (for messages only)"""
        try:
            if isinstance(s, list):
                return '%s:%s' % (self.files[s[0]], s[1])
            return str(s)
        except Exception:
            return '?'

    def size(self, ty):
        l = self.T[ty]['layout']
        return l['size'] if l else 0

    def align(self, ty):
        l = self.T[ty]['layout']
        return l['align'] if l else 1

    def cls(self, ty):
        """'z' zero sized, 's' scalar, 'f' fat pointer, 'm' memory"""
        c = self._cls.get(ty)
        if c is None:
            c = self._cls[ty] = self._mkcls(ty)
        return c

    def _mkcls(self, ty):
        t = self.T[ty]
        k = t['k']
        if t['layout'] is not None and t['layout']['size'] == 0 and not t['layout']['unsized']:
            return 'z'
        if k in ('bool', 'char', 'int', 'uint', 'float', 'fnptr'):
            return 's'
        if k in ('ptr', 'ref'):
            return 'f' if self.unsized(t['to']) else 's'
        if k == 'pat':
            return self.cls(t['base'])
        if k == 'adt' and t.get('box'):
            return 'm'
        return 'm'

    def unsized(self, ty):
        t = self.T[ty]
        if t['k'] in ('str', 'slice', 'dyn'):
            return True
        return bool(t['layout'] and t['layout']['unsized'])

    def width(self, ty):
        """(bits, signed) of an integer-like type"""
        t = self.T[ty]
        k = t['k']
        if k == 'uint':
            return t['bits'], False
        if k == 'int':
            return t['bits'], True
        if k == 'bool':
            return 1, False
        if k == 'char':
            return 32, False
        if k in ('ptr', 'ref', 'fnptr', 'fndef'):
            return 64, False
        if k == 'pat':
            return self.width(t['base'])
        return None

    def field_off(self, ty, i, variant=None):
        l = self.T[ty]['layout']
        f = l['fields']
        v = l['variants']
        if variant is not None and v[0] == 'multi':
            return v[4][variant][i]
        if f[0] == 'arb':
            return f[1][i]
        if f[0] == 'union':
            return 0
        if f[0] == 'array':
            return f[1] * i
        if f[0] == 'prim':
            return 0
        raise KeyError((ty, i))

    def fields(self, ty, variant=0):
        """[(name, offset, type)]"""
        t = self.T[ty]
        k = t['k']
        if k == 'adt':
            if not t['variants']:
                return []
            v = t['variants'][variant]
            return [(n, self.field_off(ty, i, variant), ft) for i, (n, ft) in enumerate(v['fields'])]
        if k in ('tuple', 'closure'):
            return [(str(i), self.field_off(ty, i), ft) for i, ft in enumerate(t['fields'])]
        return []

    def field_ty(self, ty, i, variant=None):
        t = self.T[ty]
        if t['k'] == 'adt':
            return t['variants'][variant or 0]['fields'][i][1]
        return t['fields'][i]

    def const(self, m):
        k = id(m)
        c = self._const.get(k)
        if c is None:
            c = self._const[k] = (Const(m), m)
        return c[0]

    def leaves(self, ty, off=0):
        """scalar leaves (off, size, ty) of a type without enums/unions, or None"""
        t = self.T[ty]
        c = self.cls(ty)
        if c == 'z':
            return []
        if c == 's':
            return [(off, self.size(ty), ty)]
        if c == 'f':
            return [(off, 8, ty), (off + 8, 8, None)]
        k = t['k']
        if k == 'array':
            es = self.size(t['elem'])
            sub = self.leaves(t['elem'])
            if sub is None:
                return None
            return [(off + i * es + o, s, ft) for i in range(t['len']) for o, s, ft in sub]
        if k in ('tuple', 'closure') or (k == 'adt' and t['adt'] == 'struct'):
            out = []
            for _, o, ft in self.fields(ty):
                sub = self.leaves(ft, off + o)
                if sub is None:
                    return None
                out += sub
            return out
        return None

    def is_limbs(self, ty):
        t = self.T[ty]
        if t['k'] == 'array' and t['len'] in (16, 14):
            e = self.T[t['elem']]
            if e['k'] == 'uint' and e['bits'] == 32:
                return 'F' if t['len'] == 16 else 'S'
        return None
