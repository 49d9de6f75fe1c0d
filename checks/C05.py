"""C05: exactly the selected rules run.

Scripted rules with arbitrary names (each reports once per source) and all the shipped rules; selections in any
combination of the three configuration files and the command line; the listing, the filter as the reporter sees it
and the rules that report are all compared with the selection computed here."""
import json, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, ocl

PFX = ALL = None
BASE = []          # identifiers of the shipped rules in loading order
DENSE = []         # violations of the dense source, all rules enabled

DENSE_SRC = '''
#include <stdarg.h>
int g; int unusedGlobalThing;
class Base { public: virtual int vf(int a) { return a; } ~Base() {} };
class Derived : public Base { public: int operator==(const Derived &o) const; void *operator new(unsigned long); };
int manyParameters(int aa, int bb, int cc, int dd, int ee, int ff, int gg, int hh, int ii, int jj, int kk, int ll) { return aa; }
int f(int x, int y) {
    int i = 0, unusedLocal; int _thisNameIsLongerThanTheRuleAllowsIt = 3;
    if (x) { } else { g = 1; }
    if (x == 1) if (y == 2) g = 2;
    if (x & y) { g = 3; }
    if (1) { g = 4; }
    if (!(x == y)) { g = 4; } else { g = 5; }
    while (x) { }
    for (;y;) { g++; }
    do { g--; } while (y);
    switch (x) { case 1: g = 1; break; case 2: g = 2; }
    switch (x) { default: g = 1; }
    switch (x) { case 5: g = 3; default: g = 1; }
    ;;
    if ((x = y)) { g = 7; } if (x = y) { g = 6; }
    int r = (x == y) ? 1 : 0; bool b = x ? true : false; if (b == true) { g = 2; }
    goto end;
    x = 5; g += i; g = - -x; g =-x;
    try { throw 1; } catch (...) { }
    try { throw 1; } catch (int) { throw; } 
    g = sizeof(int) * (((x)));
    int *p = 0; if (p != 0 && *p == 1 || p == 0 || *p) { g = 2; }
    for (int k = 0; k < 3; k++) { for (int l = 0; l < 3; k++) { g = 1; } continue; }
    int j = 3; return j;
    g = 9;
end:
    return r;
}
'''


def ident(name):
    """first letter of every run of letters in upper case, everything else that is no letter dropped"""
    return ''.join(w[0].upper() + w[1:] for w in re.findall('[A-Za-z]+', name))


def listing(out):
    m = re.search(r'Enabled rules:\n((?:- .*\n)*)\n', out.decode())
    return None if not m else [l[2:] for l in m.group(1).splitlines()]


FAIL = []


def setup():
    global PFX, ALL
    PFX = ocl.Prefix('c05', rules=(), reporters=(), plugins=('script', 'events'))
    ALL = ocl.Prefix('c05all', rules='all', reporters=(), plugins=('events',))
    d = ocl.mkd('c05setup')
    open(d + '/a.cpp', 'w').write(DENSE_SRC)
    q = ocl.run(ALL, ['-list-enabled-rules', '-report-type', 'verif-events', 'a.cpp', '--'], d)
    l = listing(q.out)
    if not l:
        q = ocl.run(ALL, ['-list-enabled-rules', '-report-type', 'verif-events', 'a.cpp', '--'], d)
        l = listing(q.out)
    if not l:
        FAIL[:] = ['status %d, %s' % (q.rc, q.err.decode('utf-8', 'replace')[-500:])]
        return
    BASE[:] = l
    DENSE[:] = ocl.violations(ocl.events(q.out)) or []


def plan(tier, seed):
    for i in range(1500 if tier == 'quick' else 60000):
        yield [seed, i]


WORDS = ['long', 'line', 'n-path', 'avoid branching', 'ncss', 'c', 'Empty', 'if', 'NOT', 'a1b2', 'isEqual', 'x', 'double negative', 'y z',
         'bit-wise', "don't", 'use_snake', 'Three  spaces', 'ending ', ' leading', '3 digits', '64bit']


def sel(r, cand):
    k = r.choice([0, 0, 1, 1, 2, 3, 6])
    return [r.choice(cand) for _ in range(k)]


def yaml_list(r, l):
    q = lambda s: r.choice([lambda: "'%s'" % s.replace("'", "''"), lambda: json.dumps(s), lambda: s])() if re.fullmatch('[A-Za-z]+', s) \
        else r.choice(["'%s'" % s.replace("'", "''"), json.dumps(s)])
    if r.random() < 0.3:
        return ' [%s]\n' % ', '.join(q(s) for s in l)
    return '\n' + ''.join('  - %s\n' % q(s) for s in l)


def layers(r, cand, d, pfx_etc, home, cwd):
    """writes the configuration files; returns the selections in order of application, and the arguments"""
    seq, args = [], []
    for path in (pfx_etc, home + '/.oclint', cwd + '/.oclint'):
        if os.path.lexists(path):
            os.unlink(path)
        if r.random() < 0.45:
            continue
        en, dis = sel(r, cand), sel(r, cand)
        parts = []
        if en:
            parts.append('rules:' + yaml_list(r, en))
        if dis:
            parts.append('disable-rules:' + yaml_list(r, dis))
        r.shuffle(parts)
        open(path, 'w').write(''.join(parts) or r.choice(['', '\n', '# nothing\n', 'max-priority-3: 20\n']))
        seq.append((en, dis))
    en, dis = (sel(r, cand), sel(r, cand)) if r.random() < 0.8 else ([], [])
    opts = [('-rule', x) for x in en] + [('-disable-rule', x) for x in dis]
    r.shuffle(opts)
    for k, x in opts:
        args += ['%s=%s' % (k, x)] if r.random() < 0.5 or x.startswith('-') else [k, x]
    # the order among the arguments of one kind matters to nothing
    seq.append((en, dis))
    return seq, args


def selected(seq):
    last = {}
    for en, dis in seq:
        for x in en:
            last[x] = True
        for x in dis:
            last[x] = False
    left = {k for k, v in last.items() if v}
    return lambda n: last.get(n) is not False and (not left or n in left)


def case(spec):
    seed, i = spec
    r = check.rng_of('C05', seed, i)
    o = check.Outcome()
    if not o.need(not FAIL, 'listing', lambda: 'with nothing selected no rule of those shipped is listed as enabled: ' + FAIL[0]):
        return o
    d = ocl.mkd('c05-%d-%s' % (os.getpid(), check.h(spec)))
    try:
        home, cwd = d + '/home', d + '/work'
        os.mkdir(home), os.mkdir(cwd)
        real = i % 5 == 0
        # a prefix of its own, since the installation-wide file lies in it
        src = ALL if real else PFX
        pd = d + '/p'
        os.makedirs(pd + '/bin'), os.makedirs(pd + '/etc'), os.symlink(src.dir + '/lib', pd + '/lib')
        os.symlink(ocl.OCLINT, pd + '/bin/oclint')

        class P:
            bin = pd + '/bin/oclint'
        if real:
            names = BASE
            ids = list(BASE)
        else:
            names = []
            for _ in range(r.randrange(1, 9)):
                n = ' '.join(r.choice(WORDS) for _ in range(r.randrange(1, 3)))
                names.append(n if re.search('[A-Za-z]', n) else n + 'q')
            if len(names) > 2 and r.random() < 0.3:
                names[1] = names[0].replace(' ', '-')
            ids = [ident(n) for n in names]
        cand = ids * 3 + ['NoSuchRule', 'Long', 'longLine'] + [n for n in names if n and n[0] != '-'] + [ids[0].lower(), ids[-1] + 'X', ids[0][:-1]]
        cand = [c for c in cand if c]
        if real:
            sub = r.sample(BASE, 12) + r.sample([v[3] for v in DENSE], min(8, len(DENSE)))
            cand = sub * 3 + ['NoSuchRule', 'longLine', 'long line']
        seq, args = layers(r, cand, d, pd + '/etc/oclint', home, cwd)
        keep = selected(seq)
        want = [x for x in ids if keep(x)]
        env = {'HOME': home, 'VERIF_OPTIONS': ','}
        if real:
            open(cwd + '/a.cpp', 'w').write(DENSE_SRC)
            srcs = ['a.cpp']
        else:
            srcs = ['a.cpp', 'b.cpp'][:r.randrange(1, 3)]
            for s in srcs:
                open(cwd + '/' + s, 'w').write('int x;\n')
            hx = lambda s: s.encode().hex() or '-'
            with open(d + '/script', 'w') as f:
                for n in names:
                    f.write('R %s %s %d\n' % (hx(n), hx('cat'), r.choice([1, 2, 3])))
                for t in range(len(srcs)):
                    for k in range(len(names)):
                        f.write('V %d %d %s %d 1 %d 2 %s\n' % (t, k, hx('/x/' + srcs[t]), k + 1, k + 1, '-'))
            env['VERIF_SCRIPT'] = d + '/script'
        lst = r.random() < 0.7
        if lst:
            args.append('-list-enabled-rules')
        if r.random() < 0.2:
            args.append('-enable-global-analysis')
        q = ocl.run_retry(P, args + ['-report-type', 'verif-events'] + srcs + ['--'], cwd, env)
        if q.crashed:
            o.bad('crash', q.crash_text())
            o.files['stderr'] = q.err
            return o
        ev = ocl.events(q.out)
        if ev is None:
            o.bad('no-report', 'no report, status %d, %s' % (q.rc, q.err.decode()[-200:]))
            return o
        desc = 'selections %r' % (seq,)
        if len(desc) > 900:
            desc = desc[:900]
        if lst:
            g = listing(q.out)
            o.need(g == want, 'listing', lambda: 'listed %s, selected are %s; %s' % (g, want, desc))
        else:
            o.need(b'Enabled rules' not in q.out, 'listing', 'listing although not asked for')
        o.need(ev['options']['enabled'] == want, 'filter', lambda: 'enabled are %s, selected are %s; %s' % (ev['options']['enabled'], want, desc))
        vs = ocl.violations(ev)
        if real:
            exp = [v for v in DENSE if keep(v[3])]
            exp = [v[:4] + [cwd + '/a.cpp'] + v[5:] for v in exp]
            o.need(vs == exp, 'ran', lambda: 'violations of %s, expected of %s; %s' % (sorted({v[3] for v in vs}), sorted({v[3] for v in exp}), desc))
        else:
            exp = [['/x/' + s, names[k], k + 1] for s in srcs for k in range(len(names)) if keep(ids[k])]
            got = [[v[4], v[0], v[5]] for v in vs]
            o.need(got == exp, 'ran', lambda: 'rules that ran: %s, expected %s; %s' % (got, exp, desc))
        n = sum(len(a) + len(b) for a, b in seq)
        o.stats['shipped rules' if real else 'scripted rules'] += 1
        o.stats['selections'] += n
        o.stats['names selected and deselected'] += len({x for a, b in seq for x in a} & {x for a, b in seq for x in b})
        o.stats['runs with %s rules' % ('no' if not want else 'all' if len(want) == len(ids) else 'some')] += 1
        if n:
            o.sig.append((real, len(seq), tuple((len(a), len(b)) for a, b in seq), len(want), len(ids)))
        o.sample = {'selections': [[a[:4], b[:4]] for a, b in seq], 'rules': len(ids), 'selected': want[:6]}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return o


if __name__ == '__main__':
    check.main('C05', case, plan, setup=setup,
               rule='runs with at least one selection, distinct in layering of the selections, rules loaded and rules selected',
               assumptions=['within one source of configuration, disabling is applied after enabling',
                            'rules are selected by identifier: the name in camel case, letters only'])
