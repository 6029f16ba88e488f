"""Effects: purity of the deterministic entry points, secret-independent control flow, absence of panics."""
import re
from specbase import *
from spec_sig import no_panic, short_stack, guard

PURE = ['root_verify', 'root_verify_with_error', 'root_sign', 'root_derive_public', 'root_private_to_secret',
        'root_secret_to_public', 'root_private_to_public', 'root_sign_by_private', 'root_sign_with_secret_and_nonce',
        'root_hex_to_private_key', 'root_hex_to_signature', 'root_hex_to_message_hash', 'root_sk_from_str',
        'root_sk_from_bytes', 'root_vk_from_str', 'root_vk_from_bytes', 'root_vk_as_bytes', 'root_sgk_from_str',
        'root_sgk_from_slice', 'root_sgk_from_bytes', 'root_sgk_from_secret', 'root_sgk_to_bytes',
        'root_sgk_verifying_key', 'root_sgk_secret_key', 'root_sgk_sign_prehash', 'root_sig_as_slice', 'root_sk_eq',
        'root_vk_eq', 'root_sgk_eq', 'root_sk_clone', 'root_vk_clone', 'root_sgk_clone', 'root_sk_ser', 'root_vk_ser',
        'root_sgk_ser', 'root_sk_de', 'root_vk_de', 'root_sgk_de']

BADCRATE = re.compile(r'^(rand(_core|_chacha|_pcg|_xorshift)?|getrandom|libc|std_detect|once_cell|lazy_static|parking_lot.*)$')
BADPATH = re.compile(r'^<?(std|core)::(time|env|fs|io|net|process|thread|random|os|sys|backtrace|sync::(atomic|mutex|rwlock|once|'
                     r'Mutex|RwLock|Once|OnceLock|LazyLock|mpsc|nonpoison|poison)|hash::random)')
OKFOREIGN = re.compile(r'__rust_(no_)?(re|de)?alloc|memcpy|memmove|memset|memcmp|bcmp|strlen')


def refs(x, acc):
    if isinstance(x, dict):
        if 'ptrs' in x:
            for _, a in x['ptrs']:
                acc.add(a)
        else:
            for v in x.values():
                refs(v, acc)
    elif isinstance(x, list):
        for y in x:
            refs(y, acc)


def calls(p, i):
    b = p.I[i]['body']
    if b is None:
        return
    for _, t in b['blocks']:
        if t[0] == 'call':
            if t[2][0] == 'fn':
                yield t[2][2], p.T[t[2][1]].get('name')
                for o in t[3]:
                    if o[0] == 'fn' and o[2] is not None:
                        yield o[2], None
            else:
                yield None, 'a function pointer'
        elif t[0] == 'drop' and t[4] is not None:
            yield t[4], None


def pointer_fns(p, stm):
    for s in stm:
        if s[0] == '=' and s[3][0] == 'cast' and len(s[3]) > 4 and s[3][4].__class__ is int:
            yield s[3][4]


def spec_pure(ctx):
    p = ctx.prog
    total = set()
    for r in PURE:
        i0 = ctx.root(r)
        par = {i0: None}
        work = [i0]
        bad = []
        while work:
            i = work.pop()
            I = p.I[i]

            def path():
                out, j = [], i
                while j is not None:
                    out.append(p.name[j].split('<')[0] if '::' not in p.name[j] else p.name[j])
                    j = par[j]
                return ' <- '.join(out[:4])
            nm = I['name']
            if BADCRATE.match(I['crate'] or '') or BADPATH.match(nm):
                bad.append((nm, '%s reaches %s' % (r[5:], path())))
                continue
            if I.get('foreign') and not OKFOREIGN.search(nm):
                bad.append((nm, '%s reaches the foreign function %s' % (r[5:], path())))
                continue
            if I['kind'] == 'intrinsic' and 'atomic' in (I.get('intrinsic') or nm):
                bad.append((nm, '%s reaches atomic memory: %s' % (r[5:], path())))
                continue
            if I['body'] is None:
                continue
            acc = set()
            for stm, t in I['body']['blocks']:
                refs(stm, acc)
                refs(t, acc)
                if any(s[0] == '=' and s[3][0] == 'tls' for s in stm):
                    bad.append((nm, '%s reads a thread-local in %s' % (r[5:], path())))
                if t[0] not in ('call', 'assert', 'ret', 'goto', 'switch', 'drop', 'resume', 'unreachable'):
                    bad.append((nm, '%s runs %s in %s' % (r[5:], t[0], path())))
            seen = set()
            while acc:
                a = acc.pop()
                if a in seen:
                    continue
                seen.add(a)
                A = p.A[a]
                m = A.get('mem')
                if A['k'] == 'static' and (m is None or m.get('mut')):
                    bad.append((A.get('name'), '%s uses the mutable global %s in %s' % (r[5:], A.get('name'), path())))
                if m:
                    refs(m, acc)
            for j, n in calls(p, i):
                if j is None:
                    if n and (BADPATH.match(n) or n.split('::')[0] in ('rand', 'getrandom', 'libc')):
                        bad.append((n, '%s calls %s in %s' % (r[5:], n, path())))
                elif j not in par:
                    par[j] = i
                    work.append(j)
        total |= set(par)
        for k, t in bad[:5]:
            ctx.fail('%s: effect %s' % (r, k), t)
        if not bad:
            ctx.ob('%s: none of its %d reachable functions has an effect besides its result' % (r[5:], len(par)), True)
    ctx.notes.append('functions in the effect closure: %d' % len(total))
    # what the abstract runs saw: results are functions of the arguments, which are left as they were
    for r in ('root_sign', 'root_derive_public', 'root_private_to_secret', 'root_sgk_sign_prehash'):
        def f():
            run = ctx.run(r)
            for o in run.outs:
                for e in o.st.events:
                    if e[0] != 'hash':
                        raise Viol('%s: %s' % (r, e[0]), '%s: result depends on %s' % (r[5:], e[:2]))
                for n, a in enumerate(run.args):
                    q = a.p if a.__class__ is Fat else a
                    if q.__class__ is Ptr and any(not same(nb(v), byte_atom('arg%d' % (n + 1), o_)) for o_, (s, v)
                                                  in o.st.mem.m[q.a].cells.items() if s == 1 and v.__class__ in (int, Poly)):
                        raise Viol('%s: argument' % r, '%s modifies its argument %d' % (r[5:], n + 1))
        guard(ctx, r[5:] + ': the outcome is a function of the arguments only', f)


# ---- control flow and secrets --------------------------------------------------------------------------------
SECRET = ['root_sign', 'root_derive_public', 'root_sign_by_private', 'root_sign_with_secret_and_nonce',
          'root_private_to_secret', 'root_secret_to_public', 'root_private_to_public']


def spec_ct(ctx):
    p = ctx.prog
    for r in SECRET:
        run = ctx.run(r)
        ip = run.ip
        kind = atoms_of(GE(sub(byte_atom('arg1', 56), 128)))
        bad = {}
        for fn, v, conds in ip.branches:
            for a in atoms_of(v):
                if a in kind or KIND[a] == 'len' or (KIND[a] in ('GE', 'EQ') and all(
                        KIND[b] == 'len' for b in atoms_of(fpoly(DATA[a])))):
                    continue
                bad[fn] = a
        for fn, a in bad.items():
            ctx.fail('%s: branch in %s' % (r, fn), '%s: a branch in %s depends on secret data (%s)'
                     % (r[5:], fn, show(pa(a), 1, 3)[:120]))
        if not bad:
            ctx.ob('%s: %d undecided branches, all on the key-kind bit or a length' % (r[5:], len(ip.branches)), True)
        bad = {}
        for fn, q, conds in ip.selects:
            al = None
            for o in run.outs:
                al = o.st.mem.m.get(q.a) or al
            if al is None or al.const is None or al.size < 64 * 1024 // 8:
                bad[fn] = q
        for fn, q in bad.items():
            ctx.fail('%s: address in %s' % (r, fn), '%s: an address in %s depends on secret data' % (r[5:], fn))
        if not bad:
            ctx.ob('%s: %d data-dependent addresses, all in the constant comb table' % (r[5:], len(ip.selects)), True)
        dv = {p.name[i] for o in run.outs for i in o.st.env.get('div', ())}
        for fn in dv:
            ctx.fail('%s: division in %s' % (r, fn), '%s: a division in %s has secret operands' % (r[5:], fn))
        if not dv:
            ctx.ob('%s: no division of secret data' % r[5:], True)


# ---- panics ----------------------------------------------------------------------------------------------------
TOTAL = ['root_verify', 'root_verify_with_error', 'root_sign', 'root_derive_public', 'root_private_to_secret',
         'root_secret_to_public', 'root_private_to_public', 'root_sign_by_private', 'root_sign_with_secret_and_nonce',
         'root_generate_key', 'root_vk_as_bytes', 'root_sgk_from_bytes', 'root_sgk_from_secret', 'root_sgk_to_bytes',
         'root_sgk_verifying_key', 'root_sgk_secret_key', 'root_sgk_sign_prehash', 'root_sig_as_slice',
         'root_sgk_random', 'root_sk_eq', 'root_vk_eq', 'root_sgk_eq', 'root_sk_clone', 'root_vk_clone',
         'root_sgk_clone', 'root_sk_ser', 'root_vk_ser', 'root_sgk_ser', 'root_sk_de', 'root_vk_de', 'root_sgk_de']


def spec_nopanic(ctx):
    for r in TOTAL:
        try:
            no_panic(ctx, ctx.run(r), r[5:])
        except Viol as v:
            ctx.fail(v.key, v.text)


# ---- memory safety -----------------------------------------------------------------------------------------------
PARTIAL = ['root_hex_to_private_key', 'root_hex_to_signature', 'root_hex_to_message_hash', 'root_sk_from_str',
           'root_sk_from_bytes', 'root_vk_from_str', 'root_vk_from_bytes', 'root_sgk_from_str', 'root_sgk_from_slice']


def raw_derefs(p, i):
    """places of the body that go through a raw pointer"""
    b = p.I[i]['body']
    n = 0
    for stm, t in b['blocks']:
        for s in stm:
            n += str(s).count("'transmute'")
    raw = {l for l, ty in enumerate(b['locals']) if p.T[ty]['k'] == 'ptr'}
    if raw:
        n += len(raw)
    return n


def spec_memory(ctx):
    """every load, store, copy and comparison of every operation lies inside the object it names"""
    p = ctx.prog
    own = [i for i in range(len(p.I)) if (p.I[i]['crate'] or '') == 'libgoldilocks' and p.I[i]['body'] is not None]
    k = sum(1 for i in own if raw_derefs(p, i))
    ctx.notes.append('functions of the crate that handle raw pointers: %d of %d' % (k, len(own)))
    for r in TOTAL + PARTIAL:
        try:
            run = ctx.run(r)
            ctx.ob('%s: all accesses on its %d outcomes lie inside their objects' % (r[5:], len(run.outs)), True)
        except Viol as v:
            ctx.fail(v.key, v.text)
