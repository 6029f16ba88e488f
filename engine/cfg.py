"""Control-flow facts of one MIR body: edges, natural loops, liveness, post-dominators."""


def succs(term):
    k = term[0]
    if k == 'goto':
        return [term[2]]
    if k == 'switch':
        return [b for _, b in term[3]] + [term[4]]
    if k == 'assert':
        return [term[5]]
    if k == 'call':
        return [term[5]] if term[5] is not None else []
    if k == 'drop':
        return [term[3]]
    return []


def edges(ip, inst):
    c = ip.__dict__.setdefault('_edges', {})
    if inst not in c:
        code = ip.get_code(inst)
        n = len(code.blocks)
        c[inst] = [[s for s in succs(t) if s.__class__ is int and 0 <= s < n] for _, t in code.blocks]
    return c[inst]


def loops(ip, inst):
    """header -> set of blocks of the natural loop"""
    c = ip.__dict__.setdefault('_loops', {})
    if inst in c:
        return c[inst]
    sc = edges(ip, inst)
    n = len(sc)
    pred = [[] for _ in range(n)]
    for i, ss in enumerate(sc):
        for s in ss:
            pred[s].append(i)
    # dominators (iterative)
    order, seen = [], set()
    st = [(0, iter(sc[0]))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(sc[s])))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    dom = {b: None for b in order}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == 0:
                continue
            ps = [dom[p] for p in pred[b] if p in dom and dom[p] is not None]
            if not ps:
                continue
            d = set.intersection(*ps) | {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    out = {}
    for b in order:
        for s in sc[b]:
            if dom[b] is not None and s in dom[b]:
                body = out.setdefault(s, {s})
                todo = [b]
                while todo:
                    x = todo.pop()
                    if x in body:
                        continue
                    body.add(x)
                    todo += [p for p in pred[x] if p in dom]
    c[inst] = out
    return out


def pure_loop(ip, inst, body):
    """only scalar registers are assigned: cheap to unroll"""
    code = ip.get_code(inst)
    for b in body:
        stm, term = code.blocks[b]
        if term[0] == 'call':
            return False
        for s in stm:
            if s[0] == '=' and (code.kind[s[2][0]] == 'm' or any(p[0] == 'd' for p in s[2][1])):
                return False
    return True


def loc_uses(code, b):
    """(uses before definition, definitions) of register locals in block b"""
    use, df = set(), set()

    def u(l):
        if l not in df:
            use.add(l)

    def walk(x):
        if x.__class__ in (list, tuple):
            if len(x) == 2 and x[0] == 'p' and x[1].__class__ is list:
                pl = x[1]
                u(pl[0])
                for pr in pl[1]:
                    if pr[0] == 'i' and pr[1].__class__ is int:
                        u(pr[1])
                return
            for y in x:
                walk(y)

    def place_uses(pl):
        for pr in pl[1]:
            if pr[0] == 'i' and pr[1].__class__ is int:
                u(pr[1])
    stm, term = code.blocks[b]
    for s in stm:
        if s[0] == '=':
            rv = s[3]
            if rv[0] in ('ref', 'addr', 'discr', 'len') and rv[1].__class__ is list:
                u(rv[1][0])
                place_uses(rv[1])
            walk(rv)
            pl = s[2]
            if pl[1]:
                u(pl[0])
                place_uses(pl)
            else:
                df.add(pl[0])
        else:
            walk(s)
            for x in s:
                if x.__class__ is list and len(x) == 2 and x[0].__class__ is int and x[1].__class__ is list:
                    u(x[0])
    if term[0] == 'call':
        walk(term[2])
        walk(term[3])
        d = term[4]
        if d.__class__ is list:
            if d[1]:
                u(d[0])
                place_uses(d)
            else:
                df.add(d[0])
    elif term[0] == 'ret':
        u(0)
    else:
        walk(term)
        for x in term[2:]:
            if x.__class__ is list and len(x) == 2 and x[0].__class__ is int and x[1].__class__ is list:
                u(x[0])
    return use, df


def live_in(ip, inst, hdr):
    c = ip.__dict__.setdefault('_live', {})
    if inst not in c:
        code = ip.get_code(inst)
        sc = edges(ip, inst)
        n = len(sc)
        ud = [loc_uses(code, b) for b in range(n)]
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set()
                for s in sc[b]:
                    o |= live[s]
                if code.blocks[b][1][0] == 'ret':
                    o.add(0)
                l = ud[b][0] | (o - ud[b][1])
                if l != live[b]:
                    live[b] = l
                    ch = True
        c[inst] = live
    return c[inst][hdr]


def ipdom(ip, inst, blk):
    """immediate post-dominator of a block (panicking and diverging paths ignored), or None"""
    c = ip.__dict__.setdefault('_ipdom', {})
    if inst not in c:
        sc = edges(ip, inst)
        code = ip.get_code(inst)
        n = len(sc)
        rets = [b for b in range(n) if code.blocks[b][1][0] == 'ret']
        # blocks that reach a return
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(sc):
            for s in ss:
                pred[s].append(i)
        live = set(rets)
        todo = list(rets)
        while todo:
            for p in pred[todo.pop()]:
                if p not in live:
                    live.add(p)
                    todo.append(p)
        pd = {b: ({b} if b in rets else None) for b in live}
        ch = True
        while ch:
            ch = False
            for b in live:
                if b in rets:
                    continue
                ss = [pd[s] for s in sc[b] if s in live and pd[s] is not None]
                if not ss:
                    continue
                d = set.intersection(*ss) | {b}
                if d != pd[b]:
                    pd[b] = d
                    ch = True
        c[inst] = pd
    pd = c[inst]
    d = pd.get(blk)
    if d is None:
        return None
    d = d - {blk}
    for x in d:
        if pd[x] is not None and d <= pd[x]:
            return x
    return None
