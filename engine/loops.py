"""Cut points: data-dependent loops analysed by an inductive step instead of unrolling."""
from specbase import *
from cfg import *


class NeedCut(Exception):
    def __init__(self, inst, hdr):
        Exception.__init__(self, 'loop')
        self.inst, self.hdr = inst, hdr


class Cutter:
    """drives an Interp; loops whose exit is not decided are reported (NeedCut) or handed to `handler`"""

    def __init__(self, ip, handler):
        self.ip, self.handler = ip, handler
        self.cuts = set()
        ip.on_branch = self.branch

    def branch(self, st, fr, v):
        ip = self.ip
        ip.branches.append((ip.p.name[fr.inst], v, list(st.conds)))
        if self.split_hook(st, fr, v):
            return
        # the loop this branch may leave: in this frame, or in a caller when the branch is in an iterator
        for k in range(len(st.frames) - 1, -1, -1):
            f = st.frames[k]
            ls = loops(ip, f.inst)
            cand = [h for h, body in ls.items() if f.bb in body]
            if cand:
                h = min(cand, key=lambda x: len(ls[x]))
                body = ls[h]
                if k == len(st.frames) - 1:
                    exits = any(s not in body for s in edges(ip, f.inst)[f.bb])
                    if not exits:
                        return
                if (f.inst, h) in self.cuts or pure_loop(ip, f.inst, body):
                    return
                raise NeedCut(f.inst, h)
            nm = ip.p.name[f.inst]
            if not ('::next' in nm or 'Iterator' in nm or 'Step' in nm or 'iter::' in nm or 'range' in nm):
                return

    def split_hook(self, st, fr, v):
        return False

    def at_cut(self, st):
        fr = st.frames[-1]
        return (fr.inst, fr.bb) in self.cuts

    def run(self, st):
        """all outcomes from st, cutting loops"""
        ip = self.ip
        outs = []
        work = [st]
        while work:
            st = work.pop()
            while True:
                if st.frames and self.at_cut(st):
                    r = self.handler(self, st)
                else:
                    r = self.step(st)
                if r is None:
                    continue
                if r.__class__ is Outcome:
                    outs.append(r)
                    break
                if not r:
                    break
                st = r[0]
                work += r[1:]
                if len(work) + len(outs) > 1500:
                    raise Unsupported('too many partitions')
        return outs

    def step(self, st):
        try:
            return self.ip.step(st)
        except MemError as e:
            raise Unsupported(str(e))

    def iterate(self, st, depth, inst, hdr):
        """from the loop header: (states back at the header, states that left the loop, outcomes)"""
        ip = self.ip
        body = loops(ip, inst)[hdr]
        back, left, outs = [], [], []
        work = [st]
        first = True
        while work:
            st = work.pop()
            while True:
                n = len(st.frames)
                if not first:
                    if n == depth and st.frames[-1].bb == hdr:
                        back.append(st)
                        break
                    if n < depth or (n == depth and st.frames[-1].bb not in body):
                        left.append(st)
                        break
                    if self.at_cut(st):
                        r = self.handler(self, st)
                    else:
                        r = self.step(st)
                else:
                    r = self.step(st)
                first = False
                if r is None:
                    continue
                if r.__class__ is Outcome:
                    outs.append(r)
                    break
                if not r:
                    break
                st = r[0]
                work += r[1:]
                if len(work) > 400:
                    raise Unsupported('too many partitions in a loop body')
        return back, left, outs


# ---- the varying part of a state ----------------------------------------------------------------
def reg_cells(ip, st, depth, live):
    """live register values of the loop's frame and all scalar memory cells of its memory locals"""
    fr = st.frames[depth - 1]
    code = fr.body
    out = {}
    for l, v in enumerate(fr.r):
        k = code.kind[l]
        if k == 'm':
            if v is not None and v in st.mem.m:
                for o, (s, x) in st.mem.m[v].cells.items():
                    out[('m', l, o, s)] = x
        elif l in live:
            if v.__class__ is list:
                for i, x in enumerate(v):
                    out[('t', l, i)] = x
            else:
                out[('r', l)] = v
    return out


def put_cell(st, depth, key, val):
    fr = st.frames[depth - 1]
    if key[0] == 'r':
        fr.r[key[1]] = val
    elif key[0] == 't':
        fr.r[key[1]] = list(fr.r[key[1]])
        fr.r[key[1]][key[2]] = val
    else:
        al = st.mem.w(fr.r[key[1]])
        al.cells[key[2]] = (key[3], val)


def varying(a, b):
    return {k for k in set(a) | set(b) if k not in a or k not in b or not eqv(a[k], b[k])}


def eqv(x, y):
    if x is y:
        return True
    if x.__class__ is Poly and y.__class__ is Poly:
        return x == y
    try:
        return x.__class__ is y.__class__ and bool(x == y)
    except Exception:
        return False
