"""Point operations reachable through goldilocks::point_by_secret: they are the operations of the group."""
from specbase import *
from spec_sig import clamp, no_panic, guard

FEATURES = ['pt_mul', 'pt_group', 'pt_eq', 'pt_curve', 'pt_identity']


def key_scalar(arg):
    """the point of a key is [s/4] of the table base: its coefficient"""
    s = qres(rnorm(le(clamp(inbytes(arg, 0, 57))), QQ))
    return rmul(s, INV4, QQ)


def encodes(bs, coeff, what, text):
    f = enc_form(bs, what)
    exp = {'B': coeff} if not (coeff.__class__ is int and coeff == 0) else {}
    if not form_eq(f, exp):
        raise Viol(what + ': point', '%s: the result is %s, expected %s' % (what, form_text(f), text))


def spec_points(ctx):
    k = key_scalar('arg1')
    todo = [('root_pt_double', 'double_internal', lambda: rnorm(scale(k, 2), QQ), 'twice the point'),
            ('root_pt_niels', 'to_projected_niels/to_extended_point', lambda: k, 'the same point'),
            ('root_pt_add', 'add_projected_niels_to_extended', lambda: rnorm(add(k, key_scalar('arg2')), QQ), 'the sum'),
            ('root_pt_sub', 'sub_projected_niels_from_extended_point', lambda: rnorm(sub(k, key_scalar('arg2')), QQ),
             'the difference'),
            ('root_pt_mul', 'point_scalar_mul', lambda: rmul(k, qres(rnorm(le(inbytes('arg2', 0, 56)), QQ)), QQ),
             'the multiple by the scalar')]
    for root, what, exp, text in todo:
        if not ctx.has(root):
            ctx.notes.append('%s: not part of this tree' % what)
            continue
        run = ctx.run(root)
        no_panic(ctx, run, what)
        for o in run.outs:
            if o.kind == 'ret':
                guard(ctx, '%s: %s for every point and argument' % (what, text),
                      lambda o=o: encodes(blob_bytes(o.val, 57), exp(), what, text))
    if ctx.has('root_pt_eq'):
        run = ctx.run('root_pt_eq')
        no_panic(ctx, run, 'mod_equal')
        for o in run.outs:
            if o.kind == 'ret':
                guard(ctx, 'mod_equal holds exactly for equal group elements', lambda o=o: is_equality(o))
    if ctx.has('root_pt_on_curve'):
        run = ctx.run('root_pt_on_curve')
        no_panic(ctx, run, 'is_on_curve')
        for o in run.outs:
            if o.kind == 'ret':
                def f(o=o):
                    if o.val.__class__ is not int or o.val != 1:
                        raise Viol('is_on_curve', 'is_on_curve can be false for a point of the curve')
                guard(ctx, 'is_on_curve holds for the point of every key', f)
    if ctx.has('root_pt_identity'):
        run = ctx.run('root_pt_identity')
        no_panic(ctx, run, 'set_identity')
        for o in run.outs:
            if o.kind == 'ret':
                guard(ctx, 'set_identity gives the neutral element',
                      lambda o=o: encodes(blob_bytes(o.val, 57), 0, 'set_identity', 'the neutral element'))


def is_equality(o):
    a = linear_atom(o.val) if o.val.__class__ is Poly else None
    if a is None or KIND[a] != 'PEQ' or not same(o.val, pa(a)):
        raise Viol('mod_equal', 'mod_equal is not the comparison of two points: ' + str(o.val)[:120])
    fs = [FORMS[k] for k in DATA[a]]
    k, l = key_scalar('arg1'), key_scalar('arg2')
    if not any(form_eq(f, {'B': k}) and form_eq(g, {'B': l}) for f in fs for g in fs if f is not g):
        raise Viol('mod_equal', 'mod_equal compares %s' % ' with '.join(form_text(f) for f in fs))
