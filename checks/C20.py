"""C20: language gating. Probe rules for every language/CUDA mask; the same code in several languages."""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, gen, models, ocl, rulecheck as rc

# what the documentation says the rules are for (all others: every language)
ONLY = {'BrokenNilCheck': 'O', 'MisplacedNilCheck': 'O', 'RedundantNilCheck': 'O', 'BrokenNullCheck': 'C+', 'MisplacedNullCheck': 'C+',
        'ThrowExceptionFromFinallyBlock': 'O', 'UnnecessaryNullCheckForDealloc': '+', 'ProblematicBaseClassDestructor': '+',
        'DestructorOfVirtualClass': '+', 'AvoidDefaultArgumentsOnVirtualMethods': '+', 'MissingHashMethod': 'O',
        'MissingCallToBaseMethod': 'O', 'CallingProtectedMethod': 'O', 'MissingAbstractMethodImplementation': 'O',
        'UseBoxedExpression': 'O', 'UseContainerLiteral': 'O', 'UseNumberLiteral': 'O', 'UseObjectSubscripting': 'O'}
# the same text has other types or declarations in C++ than in C, and these rules are about those
C_VS_CXX = {'UselessParentheses', 'MultipleUnaryOperator', 'BrokenNullCheck', 'MisplacedNullCheck', 'RedundantIfStatement',
            'RedundantConditionalOperator', 'TooManyFields', 'UnnecessaryDefaultStatement', 'UseNumberLiteral', 'UseBoxedExpression',
            'ConstantIfExpression', 'ConstantConditionalOperator', 'MissingDefaultStatement'}
OBJC = ['-fobjc-runtime=gnustep-2.0', '-fblocks', '-fobjc-exceptions']
EXC = ['-fexceptions', '-fcxx-exceptions']
MODES = {
    'c': [('C', 'gnu17', ['-x', 'c', '-std=gnu17']), ('C', 'c99', ['-x', 'c', '-std=c99', '-fgnu-keywords']), ('C', 'gnu89', ['-x', 'c', '-std=gnu89']),
          ('C', 'gnu2x', ['-x', 'c', '-std=gnu2x']), ('C', 'pp', ['-x', 'cpp-output', '-std=gnu17']),
          ('+', 'gnu++17', ['-x', 'c++', '-std=gnu++17']), ('+', 'gnu++98', ['-x', 'c++', '-std=gnu++98']), ('+', 'gnu++20', ['-x', 'c++', '-std=gnu++20']),
          ('O', 'objc', ['-x', 'objective-c', '-std=gnu17'] + OBJC), ('O', 'objc99', ['-x', 'objective-c', '-std=gnu99'] + OBJC),
          ('O+', 'objc++', ['-x', 'objective-c++', '-std=gnu++17'] + OBJC + EXC)],
    'cxx': [('+', 'gnu++20', ['-x', 'c++', '-std=gnu++20'] + EXC), ('+', 'c++20', ['-x', 'c++', '-std=c++20'] + EXC),
            ('O+', 'objc++20', ['-x', 'objective-c++', '-std=gnu++20'] + OBJC + EXC)],
    'objc': [('O', 'objc', ['-x', 'objective-c', '-std=gnu17'] + OBJC), ('O', 'objc99', ['-x', 'objective-c', '-std=gnu99'] + OBJC),
             ('O+', 'objc++', ['-x', 'objective-c++', '-std=gnu++20'] + OBJC + EXC)],
}
BIT = {'C': 1, '+': 2, 'O': 4, 'O+': 4}


def fires(only, fam):
    return {'C': 'C', '+': '+', 'O': 'O', 'O+': 'O'}[fam] in only


def same_code(spec):
    o = check.Outcome()
    src, seed = spec['src'], spec['seed']
    rng = check.rng_of(src, seed, 'c20')
    main, pre = gen.source(rng, src, focus=['nullcheck', 'nullc', 'nscheck', 'delete', 'klass'])
    d = ocl.mkd('c20-' + check.h(src, seed))
    f = 'm.txt'
    open(os.path.join(d, f), 'w').write(main)
    if pre:
        open(os.path.join(d, 'pre.h'), 'w').write(pre)
    o.files = {f: main, 'pre.h': pre or ''}
    modes = MODES[src]
    pick = [modes[0]] + rng.sample(modes[1:], min(len(modes) - 1, 4))
    base = None
    o.n = 0
    for fam, name, flags in pick:
        if name == 'pp' and pre:
            continue
        r = ocl.run_retry(rc.prefix(), ['-report-type', 'verif-events', f, '--', '-w'] + flags, d, env={'VERIF_QUERY': 've'})
        ev = ocl.events(r.out)
        x = check.Outcome()
        if not rc.usable(x, r, ev):
            if x.viol:
                o.viol += x.viol
                return o
            o.stats['does not compile as ' + name] += 1
            continue
        got = set(rc.rows(ev))
        o.n += 1
        o.stats['programs as ' + name] += 1
        for g in sorted(got):
            if g[0] in ONLY and not fires(ONLY[g[0]], fam):
                o.bad('%s:%s' % (g[0], name), 'a rule for %s reports in a source compiled as %s: %s' % (ONLY[g[0]], name, rc.short(g)))
            if g[0] in ONLY:
                o.stats['restricted ' + g[0]] += 1
        got = {g for g in got}
        if base is None:
            base = (fam, name, got)
            o.sig.append((src, seed))
            continue
        cross = ('+' in fam) != ('+' in base[0])
        for g in sorted(got ^ base[2]):
            on = ONLY.get(g[0])
            if on and fires(on, fam) != fires(on, base[0]):
                continue
            if cross and g[0] in C_VS_CXX:
                continue
            a, b = (base[1], name) if g in base[2] else (name, base[1])
            o.bad('%s:%s/%s' % (g[0], a, b), 'reported when compiled as %s but not when compiled as %s: %s\n%s' % (a, b, rc.short(g), rc.snippet(main, g)))
        o.stats['verdicts compared'] += len(got & base[2])
    if base is None:
        o.discard = 'does not compile'
    else:
        o.sample = {'source_language': src, 'modes': [p[1] for p in pick], 'reports_in_each': len(base[2])}
    shutil.rmtree(d, ignore_errors=True)
    return o


def branchy(rng, fn, depth, n):
    """statements with conditionals and gotos, each reported thing on a line of its own"""
    out = []
    for _ in range(rng.randint(1, 2)):
        k = rng.random()
        sub = lambda: branchy(rng, fn, depth - 1, n) if depth else ['a++;']
        c = rng.choice(['a', 'a > %d' % rng.randint(0, 9), '!a', 'a && g'])
        if k < 0.25:
            out += ['if (%s) {' % c] + sub() + ['}']
        elif k < 0.55:
            out += ['if (%s) { //@BranchDivergence' % c] + sub() + ['} else {'] + sub() + ['}']
        elif k < 0.65:
            out += ['if (%s) { //@BranchDivergence' % c] + sub() + ['} else', 'if (%s) {' % c] + sub() + ['}']
        elif k < 0.75:
            out += ['if (%s) { //@BranchDivergence' % c] + sub() + ['} else', 'if (a == 3) { //@BranchDivergence'] + sub() + ['} else {'] + sub() + ['}']
        elif k < 0.85:
            n[0] += 1
            out += ['goto l%s_%d; //@GotoStatement' % (fn, n[0]), 'l%s_%d: a++;' % (fn, n[0])]
        elif k < 0.93:
            out += [rng.choice(['while (%s) {', 'for (; %s; a--) {', 'switch (%s) { default:']) % c] + sub() + ['}']
        else:
            out += ['a = %s ? 1 : 2;' % c]
    return out


def probe(spec):
    """which probe rules are given a source, per language mode"""
    o = check.Outcome()
    rng = check.rng_of(spec['seed'], 'probe')
    d = ocl.mkd('c20p-' + check.h(spec['seed']))
    cuda = spec['mode'] == 'cuda'
    names, lines = {}, []
    lines += ['#define GLOBAL %s' % ('__attribute__((global))' if cuda else ''), '#define DEVICE %s' % ('__attribute__((device))' if cuda else ''),
              '#define HOST %s' % ('__attribute__((host))' if cuda else ''), '#include "h.h"', 'static const int g = 1;']
    for i in range(rng.randint(1, 12)):
        k = rng.choice(['GLOBAL', 'GLOBAL', '', '', 'HOST', 'DEVICE', 'HOST DEVICE'])
        st = rng.choice(['', '', 'static '])
        if rng.random() < 0.3:
            lines.append('%s %svoid f%d(int a%d);' % (k, st, i, i))
        if st and k == 'GLOBAL' and rng.random() < 0.2:
            lines.append('int v%d = %d;' % (i, i))
        if rng.random() < 0.15:
            lines.append('%s %svoid d%d(void);' % (k, st, i))
        lines.append('%s %svoid f%d(int a) {%s}' % (k, st, i, 
                     rng.choice(['', ' if (a) { a++; } ', '\n' + '\n'.join(branchy(rng, str(i), 2, [0])) + '\n', '\n  while (a) a--;\n'])))
        names['f%d' % i] = k
    order = ['f%d' % i for i in range(len(names))]
    open(d + '/h.h', 'w').write('static void inheader(int a) { if (a) a++; }\n')
    open(d + '/m.txt', 'w').write('\n'.join(lines) + '\n')
    o.files = {'m.txt': '\n'.join(lines)}
    if cuda:
        flags = ['-x', 'cuda', '-nocudalib', '-nocudainc', '--no-cuda-version-check', '-std=' + rng.choice(['c++11', 'gnu++17', 'c++20'])]
        flags += rng.choice([[], ['--cuda-host-only'], ['--cuda-device-only']])
        fam = '+'
    else:
        fam, name, flags = rng.choice([m for ms in MODES.values() for m in ms if m[1] != 'pp'])
    r = ocl.run_retry(probes(), ['-report-type', 'verif-events', '-allow-duplicated-violations', 'm.txt', '--', '-w'] + flags, d, env={'VERIF_QUERY': 've'})
    ev = ocl.events(r.out)
    if not rc.usable(o, r, ev):
        return o
    got = {}
    for v in ocl.violations(ev):
        got.setdefault(v[0], []).append(v[9])
    o.n = 0
    for l in range(8):
        for c in range(4):
            if not (l == 7 or c == 1):
                continue
            on = bool(l & BIT[fam])
            if cuda:
                want = [n for n in order if c & (2 if names[n] == 'GLOBAL' else 1)] if on else []
            else:
                want = order if on and c & 1 else []
            for kind in ('visitor', 'matcher'):
                rule = 'gate %s l%d c%d' % (kind, l, c)
                o.n += 1
                have = got.pop(rule, [])
                if have != want:
                    o.bad('probe:%s:%s' % (rule, 'cuda' if cuda else fam), 'a %s rule supporting languages %d (1 C, 2 C++, 4 Objective-C) and CUDA functions %d '
                          '(1 host, 2 kernel) judged %s instead of %s in a source compiled with %s' % (kind, l, c, have, want, ' '.join(flags)))
                elif want:
                    o.sig.append(('probe', rule, 'cuda' if cuda else fam, tuple(names[n] for n in want)[:3]))
    # rules as they ship, one for kernels and one for all other functions
    where, fn = {}, None
    for ln, t in enumerate('\n'.join(lines).split('\n'), 1):
        m = re.search(r'void (f\d+)\(int a\) \{', t)
        fn = m.group(1) if m else fn
        m = re.search(r'//@(\w+)', t)
        if m:
            where.setdefault(m.group(1), []).append((ln, fn))
    lnof = {}
    for v in ocl.violations(ev):
        lnof.setdefault(v[0], []).append(v[5])
    for rule, kernels in (('branch divergence', True), ('goto statement', False)):
        want = sorted(ln for ln, f in where.get(''.join(w.capitalize() for w in rule.split()), [])
                      if (cuda and names[f] == 'GLOBAL') == kernels)
        have = sorted(lnof.get(rule, []))
        got.pop(rule, None)
        o.n += 1
        if o.need(have == want, 'cuda:' + rule, lambda: 'rule "%s" reports on lines %s instead of %s in a source compiled with %s' % (rule, have, want, ' '.join(flags))) and want:
            o.sig.append(('shipped', rule, spec['seed']))
            o.stats[rule + ' in ' + ('cuda' if cuda else fam)] += len(want)
    if got:
        o.bad('probe:unexpected', 'reports of unknown rules %s' % sorted(got)[:3])
    o.stats['probe runs ' + ('cuda' if cuda else name)] += 1
    shutil.rmtree(d, ignore_errors=True)
    return o


_probes = None


def probes():
    global _probes
    if _probes is None:
        _probes = ocl.Prefix('gates', rules=('CudaBranchDivergenceRule', 'GotoStatementRule'), plugins=('events', 'gates'))
    return _probes


def case(spec):
    return probe(spec) if spec['kind'] == 'probe' else same_code(spec)


def plan(tier, seed):
    for i in range(85 if tier == 'quick' else 5000):
        yield {'kind': 'probe', 'mode': 'cuda' if i % 3 == 0 else 'plain', 'seed': '%d-%d' % (seed, i)}
        for j, src in enumerate(('c', 'c', 'cxx', 'objc')):
            yield {'kind': 'same', 'src': src, 'seed': '%d-%d-%d' % (seed, i, j)}


if __name__ == '__main__':
    check.main('C20', case, plan, setup=lambda: (rc.setup(), probes()),
               rule='a program compiled in several language modes with equal verdicts, counted once per program; plus distinct '
                    '(probe rule, language, kinds of functions judged) with the probe rule given exactly the functions it supports')
