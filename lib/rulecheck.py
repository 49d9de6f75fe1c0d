"""Checks of rules against the reference models, over generated programs."""
import os, random, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, cross, gen, models, mutgen, ocl

_prefixes = {}


def setup():
    prefix()


def prefix(plugins=('events', 'astdump'), rules='all', reporters='all'):
    key = (tuple(rules) if rules != 'all' else 'all', tuple(plugins), str(reporters))
    if key not in _prefixes:
        _prefixes[key] = ocl.Prefix('r' + check.h(key), rules=rules, plugins=plugins, reporters=reporters)
    return _prefixes[key]


def short(v):
    return '%s at %s:%s:%s-%s:%s "%s"' % (v[0], os.path.basename(v[1]), v[2], v[3], v[4], v[5], v[6][:120])


def snippet(text, v):
    ls = text.split('\n')
    return '\n'.join(ls[max(v[2] - 1, 0):min(v[4], v[2] + 6)])[:300]


def compare(o, names, t, got, conf, text):
    """got against the models; fills the outcome"""
    exp = models.expected(t, names, conf)
    got = {g for g in got if g[0] in names}
    for g in sorted(got - exp)[:3]:
        o.bad('%s:reported' % g[0], 'reported, but should not be: %s\n%s' % (short(g), snippet(text, g)))
    for x in sorted(exp - got)[:3]:
        o.bad('%s:missed' % x[0], 'should be reported, but is not: %s\n%s' % (short(x), snippet(text, x)))
    for x in exp & got:
        o.stats[x[0]] += 1
    o.n = max(len(t.nodes), 1)
    o.stats['ast nodes judged'] += len(t.nodes)
    return exp


def analyze(pfx, d, f, lang, rc=(), query='ve', args=(), flags=(), env=None):
    """one monitored run with the AST dump; (result, events, tus)"""
    ast = os.path.join(d, 'ast.json')
    if os.path.exists(ast):
        os.unlink(ast)
    a = ['-report-type', 'verif-events']
    for k, v in rc:
        a += ['-rc', '%s=%s' % (k, v)]
    e = {'VERIF_QUERY': query, 'VERIF_AST': ast}
    if env:
        e.update(env)
    r = ocl.run_retry(pfx, a + list(args) + [f, '--', '-w'] + list(flags) + gen.FLAGS[lang], d, env=e)
    ev = ocl.events(r.out)
    docs = ocl.asts(ast) if os.path.exists(ast) else []
    return r, ev, docs


def usable(o, r, ev):
    """False (and noted) when the run gave nothing to compare"""
    if r.crashed:
        o.bad('crash', 'oclint crashed: %s\n%s' % (r.crash_text(), ' < '.join(r.crash_frames())))
        return False
    if ev is None:
        o.bad('no-report', 'no report was written (status %d): %s' % (r.rc, r.err[-300:]))
        return False
    errs = [v for k, v in ev['q'] if k == 'e'][0]
    if errs:
        o.discard = 'does not compile'
        o.stats['compile: ' + errs[0][9][:60]] += 1
        return False
    return True


def rows(ev):
    return [(v[3], v[4], v[5], v[6], v[7], v[8], v[9])
            for v in ocl.violations(ev)]


def run_text(o, names, d, f, lang, main, pre, conf, flags=(), keep=False):
    b = main if isinstance(main, bytes) else main.encode('utf-8', 'surrogateescape')
    open(os.path.join(d, f), 'wb').write(b)
    if pre is not None:
        open(os.path.join(d, 'pre.h'), 'w').write(pre)
    try:
        r, ev, docs = analyze(prefix(), d, f, lang, sorted(conf.items()), flags=flags)
        o.files = {f: b, 'pre.h': pre or '', 'command': ' '.join(r.cmd), 'stderr': r.err}
        if not usable(o, r, ev):
            return o
        if len(docs) != 1:
            o.bad('tu-count', 'the rules were applied to %d translation units, not to 1' % len(docs))
            return o
        text = b.decode('latin-1')
        t = models.TU(docs[0], b)
        exp = compare(o, names, t, rows(ev), conf, text)
        if exp:
            o.sig = [('p', lang, check.h(main), x) for x in sorted({e[0] for e in exp})]
            e = sorted(exp)[len(exp) // 2]
            o.sample = {'lang': lang, 'thresholds': conf, 'agreed_reports': len(exp), 'one_of_them': short(e), 'code': snippet(text, e)}
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)
    return o


def program_case(names, focus, confs=None, makers=()):
    """focus: generator features to strengthen; makers: name -> f(rng, lang) giving (main, pre)"""
    makers = dict(makers)

    def case(spec):
        o = check.Outcome()
        lang, seed, how = spec['lang'], spec['seed'], spec.get('how', 'gen')
        rng = check.rng_of(lang, seed, how)
        conf = confs(rng) if confs else {}
        flags = ()
        if how == 'gen':
            fw = rng.sample(focus, min(len(focus), rng.randint(0, 3)))
            main, pre = gen.source(rng, lang, focus=fw)
        elif how == 'mut':
            fw = rng.sample(focus, min(len(focus), rng.randint(0, 3)))
            d = ocl.mkd('case-' + check.h(lang, seed, how))
            main, pre, k = mutgen.source(rng, lang, d, focus=fw)
            o = run_text(o, names, d, 'm' + gen.EXT[lang], lang, main, pre, conf, flags)
            o.stats['mutated units'] += k
            return o
        elif how == 'cross':
            d = ocl.mkd('case-' + check.h(lang, seed, how))
            main, pre, k = cross.source(rng, lang, d, rng.choice([10, 40, 60]))
            o = run_text(o, names, d, 'm' + gen.EXT[lang], lang, main, pre, conf, flags)
            o.stats['crossed functions'] += k
            return o
        else:
            res = makers[how](rng, lang)
            main, pre = res[:2]
            if len(res) > 2:
                conf = res[2] if res[2] is not None else conf
        d = ocl.mkd('case-' + check.h(lang, seed, how))
        return run_text(o, names, d, 'm' + gen.EXT[lang], lang, main, pre, conf, flags)
    return case


def plan(langs, quick, thorough, makers=(), mutants=2, crosses=4):
    """makers: (name, langs, every): one case of this maker in every so many; one mutated, one crossed program in every so many"""
    def p(tier, seed):
        n = quick if tier == 'quick' else thorough
        for i in range(n):
            for name, ls, every in makers:
                if i % every == 0:
                    yield {'lang': ls[(i // every) % len(ls)], 'seed': '%d-%d' % (seed, i), 'how': name}
            yield {'lang': langs[i % len(langs)], 'seed': '%d-%d' % (seed, i)}
            if i % mutants == 0:
                yield {'lang': langs[(i // mutants) % len(langs)], 'seed': '%d-%d' % (seed, i), 'how': 'mut'}
            if i % crosses == 0:
                yield {'lang': langs[(i // crosses) % len(langs)], 'seed': '%d-%d' % (seed, i), 'how': 'cross'}
    return p
