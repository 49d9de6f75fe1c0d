"""C03: duplicates and counts. The events reporter queries the results object in random order, again and again,
on scripted collections full of duplicates and near duplicates."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, ocl, results

PFX = None


def setup():
    global PFX
    PFX = ocl.Prefix('c03', rules=(), reporters=(), plugins=('script', 'events'))


def plan(tier, seed):
    for i in range(1500 if tier == 'quick' else 60000):
        yield [seed, i]


def case(spec):
    seed, i = spec
    r = check.rng_of('C03', seed, i)
    o = check.Outcome()
    d = ocl.mkd('c03-%d-%s' % (os.getpid(), check.h(spec)))
    try:
        sc = results.Scenario(r, ws='\t\n ', ctl=True)
        dup = r.random() < 0.35
        names = sc.install(d)
        res = sc.results(dup)
        cn = sc.counts(res)
        qs = ''.join(r.choice('vewbn123EWBxyzfg') for _ in range(r.choice([3, 8, 20, 40])))
        qs += 'vewb' if r.random() < 0.5 else ''
        lim = [r.choice([None, 0, 1, 3, 50]) for _ in range(3)]
        args = ['-report-type', 'verif-events', '-o', 'out'] + (['-allow-duplicated-violations'] if dup else [])
        for k, l in enumerate(lim):
            if l is not None:
                args += ['-max-priority-%d' % (k + 1), str(l)]
        q = ocl.run_retry(PFX, args + names + ['--', '-x', 'c'], d, {'VERIF_SCRIPT': d + '/script', 'VERIF_QUERY': qs})
        if q.crashed:
            o.bad('crash', q.crash_text())
            o.files['stderr'] = q.err
            return o
        try:
            ev = ocl.events(open(d + '/out', 'rb').read())
        except OSError:
            ev = None
        if ev is None:
            o.bad('no-report', 'no report, status %d' % q.rc)
            return o
        u = lambda s: s.encode('latin-1').decode('utf-8')

        def row(x):
            ru, p, a, b, c, e, m = x
            n = list(sc.rules[ru]) if ru is not None else [None, None, None]
            return n + [p, a, b, c, e, m]

        def got(x):
            n = [u(x[0]), u(x[1]), x[2]] if x[0] is not None else [None, None, None]
            return n + [u(x[4])] + x[5:9] + [u(x[9])]
        sizes = {'n': cn['n'], '1': cn[1], '2': cn[2], '3': cn[3], 'E': cn['E'], 'W': cn['W'], 'B': cn['B'],
                 'x': int(cn['E'] > 0), 'y': int(cn['W'] > 0), 'z': int(cn['B'] > 0), 'f': cn['f'], 'g': cn['g']}
        name = {'n': 'violations', '1': 'priority 1', '2': 'priority 2', '3': 'priority 3', 'E': 'errors', 'W': 'warnings', 'B': 'bugs',
                'x': 'has errors', 'y': 'has warnings', 'z': 'has bugs', 'f': 'files', 'g': 'files with violations'}
        o.need([k for k, _ in ev['q']] == list(qs), 'queries', 'answers missing')
        for pos, (k, val) in enumerate(ev['q']):
            if k in 'vewb':
                g, x = [got(t) for t in val], [row(t) for t in res[k]]
                if g != x:
                    j = next((j for j, (s, t) in enumerate(zip(g, x)) if s != t), min(len(g), len(x)))
                    o.bad('list-' + k, 'query %d (%s of %s, duplicates %s): %d entries, expected %d; entry %d is %r, expected %r' % (
                        pos, k, qs[:pos + 1], 'allowed' if dup else 'removed', len(g), len(x), j, g[j:j + 1], x[j:j + 1]))
            elif val != sizes[k]:
                o.bad('count-' + k, 'query %d (%s): number of %s is %s, counting gives %s' % (pos, qs[:pos + 1], name[k], val, sizes[k]))
            o.stats['queries ' + k] += 1
        # the exit status counts the same results
        mx = [l if l is not None else dflt for l, dflt in zip(lim, (0, 10, 20))]
        exp = 6 if res['e'] else 5 if any(cn[k + 1] > mx[k] for k in range(3)) else 0
        o.need(q.rc == exp, 'status', 'status %d, expected %d: counts %s limits %s errors %d' % (q.rc, exp, [cn[1], cn[2], cn[3]], mx, cn['E']))
        raw = sc.collected()
        o.stats['removable duplicates'] += len(raw) - len(set(raw)) + sum(len(l) - len(set(l)) for l in (sc.e, sc.w, sc.b))
        o.stats['status %d' % q.rc] += 1
        o.n = len(qs)
        if len(raw) > 1 or len(sc.e) + len(sc.w) + len(sc.b) > 1:
            o.sig.append((dup, len(raw), len(set(raw)), cn['E'], cn['W'], cn['B'], sc.ntu))
        if o.viol:
            o.files['script'] = sc.script()
            o.files['args'] = repr(args) + '\n' + qs
        o.sample = dict(sc.describe(), distinct=len(set(raw)), queries=qs[:20])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return o


if __name__ == '__main__':
    check.main('C03', case, plan, setup=setup, targets=('oclint', 'plugins'),
               rule='collections of at least two results, distinct in numbers collected, numbers distinct, kinds and duplicate setting',
               assumptions=['duplicates are judged on rule identity, path, the four positions and the message'])
