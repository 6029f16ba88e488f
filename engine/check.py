"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current source.

1. dump.sh type-checks the harness against /repo's working tree and dumps the MIR of everything reachable from
   the public API (no code of /repo is run);
2. the rules registered for the property are applied to that program;
3. evidence/<id>.json is rewritten; exit 0 (held) or 1 with a VIOLATION line (broken, or not decidable: the
   rules fail closed, naming the construct that could not be analysed)."""
import importlib
import json
import os
import re
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(40000)

LIMIT = 840


class Timeout(Exception):
    pass


def known_findings():
    """lines `finding: property=<id> key=<key> | text` (see known/FINDINGS.txt)"""
    out = {}
    for line in open(os.path.join(HERE, 'known', 'FINDINGS.txt')):
        line = line.strip()
        if line.startswith('finding: property='):
            pid, rest = line[len('finding: property='):].split(' ', 1)
            key, _, text = rest.partition(' | ')
            out[(pid, key.split('key=', 1)[1])] = text
    return out


def profiles(tier):
    """debug assertions on; also off when the crate mentions them (always in the thorough tier)"""
    path = re.search(r'libgoldilocks = \{ path = "([^"]+)"', open(os.path.join(HERE, 'harness', 'Cargo.toml')).read()).group(1)
    for d, _, fs in os.walk(os.path.join(path, 'src')):
        for f in fs:
            if f.endswith('.rs') and 'debug_assert' in open(os.path.join(d, f), errors='replace').read():
                return ['', '1']
    return ['', '1'] if tier == 'thorough' else ['']


def dump_mir(out, mode, features):
    """the MIR of the harness with these optional entry points; those the tree does not have are left out"""
    def go(fs):
        return subprocess.run(['bash', os.path.join(HERE, 'dump.sh'), out], capture_output=True, text=True,
                              env=dict(os.environ, VERIF_NDA=mode, VERIF_FEATURES=','.join(fs)))
    r = go(features)
    if r.returncode == 0 or not features:
        return r, []
    have = [f for f in features if go([f]).returncode == 0]
    return go(have), [f for f in features if f not in have]


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import rules
    rule = rules.RULES[pid]
    viol, ctx, funcs = [], None, 0
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(Timeout()))
    signal.alarm(LIMIT)
    try:
        build = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
        os.makedirs(build, exist_ok=True)
        from specbase import Program, Ctx
        for mode in profiles(tier):
            dump = os.path.join(build, 'dump.%s%s.json' % (pid, '.nda' if mode else ''))
            r, absent = dump_mir(dump, mode, rule['features'])
            if r.returncode != 0:
                viol.append(('build', 'the harness does not type-check against the current tree: ' + r.stderr[-1500:]))
                break
            prog = Program(dump)
            try:
                os.unlink(dump)
            except OSError:
                pass
            c = Ctx(prog, tier)
            c.notes += ['entry points of %s are not in this tree' % f for f in absent]
            if ctx is None:
                ctx = c
            else:
                ctx.notes.append('also analysed with debug assertions off')
            run_rules(c, rule, viol)
            viol += [(k, t + (' [debug assertions off]' if mode else '')) for k, t in c.viol]
            if c is not ctx:
                ctx.obligations += c.obligations
            if viol:
                break
    except Timeout:
        viol.append(('timeout', 'the analysis did not converge within %d s' % LIMIT))
    signal.alarm(0)
    report(pid, tier, seed, rule, ctx, viol, time.time() - t0)


def run_rules(ctx, rule, viol):
    from specbase import Viol
    from interp import Unsupported
    for mf in rule['run']:
        m, f = mf.split('.')
        try:
            getattr(importlib.import_module(m), f)(ctx)
        except Timeout:
            raise
        except Viol as v:
            viol.append((v.key, v.text))
        except Unsupported as e:
            viol.append(('%s: not analysable' % f, 'construct outside the analysed fragment: %s %s'
                         % (e, getattr(e, 'where', ''))))
        except RecursionError:
            viol.append(('%s: not analysable' % f, 'recursion outside the analysed fragment'))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            viol.append(('%s: not analysable' % f, 'analysis stopped: %s: %s (%s:%d)'
                         % (type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno)))


def report(pid, tier, seed, rule, ctx, viol, wall):
    known = known_findings()
    fresh, seen, seenk = [], set(), set()
    for key, text in viol:
        if (pid, key) in known:
            if key not in seenk:
                seenk.add(key)
                print('KNOWN-FINDING: property=%s %s' % (pid, known[(pid, key)]))
        elif (key, text) not in seen:
            seen.add((key, text))
            fresh.append((key, text))
    obs = ctx.obligations if ctx else []
    from specbase import summary
    cov = {'explanation': rule['explain'], 'rule': rule['rule'],
           'obligations': len(obs), 'discharged': sum(1 for _, ok in obs if ok),
           'obligation_samples': sorted({n for n, ok in obs})[:40]}
    cov.update(summary(ctx) if ctx else {})
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': rule.get('assume', []), 'wall_s': round(wall, 2), 'violations': len(fresh)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not fresh and not obs:
        fresh.append(('vacuous', 'no obligation was generated: the anchors of the rule are gone'))
    if fresh:
        rp = os.path.join(HERE, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as f:
            for key, text in fresh:
                f.write('%s\n    %s\n' % (key, text))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        for key, text in fresh[:12]:
            print('  - %s' % text[:600])
        sys.exit(1)
    print('%s: %d obligations discharged in %.1f s' % (pid, len(obs), wall))
    sys.exit(0)


if __name__ == '__main__':
    main()
