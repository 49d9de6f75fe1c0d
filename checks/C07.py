"""C07: suppressions. The same program with and without suppressions (differing in one letter, so nothing moves):
what is suppressed must be exactly what the comments' lines and the annotated declarations cover."""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, gen, models, ocl, rulecheck as rc

GOOD = [' //!OCLINT', ' //!OCLINT', ' //!OCLINT because', '//!OCLINT(x)', ' //!OCLINT // more']
BAD = [' // OCLINT', ' //OCLINT', ' /*!OCLIN*/', ' //! OCLNT', ' //!oclint', ' //! important']
BODY = '''%sif (a) { }%s
%sif (a == a) ; else { }%s
%sgoto out%d;%s
%sout%d: (a);%s
'''


# rules named differently in annotations than in reports
ATTR = {'calling protected method': 'protected method', 'missing abstract method implementation': 'abstract method',
        'calling prohibited method': 'prohibited method', 'missing call to base method': 'base method'}


def has_form(c):
    return '//!OCLINT' in c


def pick_inserts(rng, t, text, vs):
    """[(line, col, annotation, prefix?)] for declarations of this AST"""
    lines = text.split('\n')
    names = sorted({v[0] for v in vs}) or ['long line']
    cand = []
    for n in t.nodes:
        if 'r' not in n or 'x' in n or 'f' in n or n.get('implicit'):
            continue
        k = n['k']
        l, c = n['r'][:2]
        if l < 1 or l > len(lines):
            continue
        here = lines[l - 1][c - 1:]
        if n.get('fn') and n.get('thisbody') and not n.get('lambda_call') and re.match(r'[A-Za-z_~]', here):
            cand.append((l, c, n))
        elif k in ('VarDecl', 'ParmVarDecl', 'FieldDecl') and re.match(r'[A-Za-z_]', here) and not n.get('dck') == 'ObjCMethod':
            cand.append((l, c, n))
        elif n.get('rec') and n.get('isdef') and re.match(r'(struct|class|union)\b', here):
            cand.append((l, c + len(re.match(r'\w+', here).group(0)), n))
        elif k == 'ObjCInterfaceDecl' and here.startswith('@interface'):
            cand.append((l, c, n))
        elif k == 'ObjCMethodDecl' and n.get('ldck') in ('ObjCImplementation', 'ObjCCategoryImpl') and n.get('body'):
            b = t[n['body']]
            if b and 'x' not in b and lines[b['r'][0] - 1][b['r'][1] - 1:b['r'][1]] == '{':
                cand.append((b['r'][0], b['r'][1], n))
    pos, out = set(), []
    kinds = sorted({n['k'] for _, _, n in cand})
    picks = []
    for _ in range(rng.choice([1, 3, 6, 12])):
        if kinds:
            k = rng.choice(kinds)
            picks.append(rng.choice([x for x in cand if x[2]['k'] == k]))
    for l, c, n in picks:
        if (l, c) in pos:
            continue
        pos.add((l, c))
        inside = [v[0] for v in vs if tuple(n['r'][:2]) <= (v[5], v[6]) and (v[7], v[8]) <= tuple(n['r'][2:])]
        rule = ATTR.get(inside[0], inside[0]) if inside and rng.random() < 0.1 else rng.choice(inside) if inside and rng.random() < 0.8 else rng.choice(names)
        a = rng.choice(['oclint:suppress', 'oclint:suppress', 'oclint:suppress[%s]', 'oclint:suppress[%s]', 'oclint:suppress[%s]',
                        'oclint:suppress[%s][because of it]', 'oclint:suppress[%s] [because]', 'oclint:suppress[%s ]', 'oclint:suppress[]',
                        'oclint:suppressed', 'oclint:suppress[long]', 'oclint:enforce[%s]', 'oclint::suppress', 'oclint:suppress [%s]'])
        if '%s' in a:
            a = a % rule
        out.append((l, c, a))
    return out


def covers(ann, name):
    """does this annotation (written oclimt in the baseline) silence the rule of this name"""
    a = ann.replace('oclimt', 'oclint')
    name = ATTR.get(name, name)
    return a == 'oclint:suppress' or a.startswith('oclint:suppress[%s]' % name)


def case(spec):
    o = check.Outcome()
    lang, seed = spec['lang'], spec['seed']
    rng = check.rng_of(lang, seed, 'c07')
    main, pre = gen.source(rng, lang, size=rng.choice([3, 6, 10]), focus=rng.sample(['klass', 'ocunit', 'emptyish', 'lambda', 'blockexpr', 'decl', 'paren', 'switch'], 2))
    if rng.random() < 0.4:
        main += 'int incfn(int a) {\n#include "body.inc"\n  return a;\n}\n'
    if lang in ('cxx', 'objcxx') and rng.random() < 0.5:
        main += ('template <class T> int tfun(T t, int un) { if (t) {}\n if (un) { } else ; return 0; }\n'
                 'template <class T> struct TCls { int m(int c) { if (c) {}\n return 0; } TCls(int q) : fld((q)) { } int fld; };\n'
                 'int tuse() { TCls<int> k(1); TCls<char> c(2); return k.m(1) + c.m(2) + tfun(1, 2) + tfun(\'c\', 2); }\n')
    d = ocl.mkd('c07-' + check.h(lang, seed))
    ext = gen.EXT[lang]
    conf = {'LONG_LINE': rng.choice([20, 40, 60, 100]), 'SHORT_VARIABLE_NAME': rng.choice([3, 5, 30])}
    try:
        w = lambda f, s: open(os.path.join(d, f), 'w').write(s)
        if pre:
            w('pre.h', pre)
        marks = [rng.choice(GOOD + BAD) if rng.random() < 0.5 else '' for _ in range(4)]
        n = rng.randint(0, 99)
        pad = lambda: ' ' * rng.randint(0, 30)
        body = BODY % (pad(), marks[0], pad(), marks[1], pad(), n, marks[2], pad(), n, marks[3])
        w('body.inc', body)
        f0 = 'p' + ext
        w(f0, main)
        r, ev, docs = rc.analyze(rc.prefix(), d, f0, lang, sorted(conf.items()))
        o.files = {f0: main, 'pre.h': pre or ''}
        if not rc.usable(o, r, ev):
            return o
        t = models.TU(docs[0], main.encode())
        vs = [v for v in ocl.violations(ev) if os.path.basename(v[4]) == f0]
        ins = pick_inserts(rng, t, main, vs) if rng.random() < 0.8 else []
        lines = main.split('\n')
        for l, c, a in sorted(ins, reverse=True):
            s = lines[l - 1]
            m = (' __attribute__((annotate("%s"))) ' if rng.random() < 0.7 else ' VERIF_ANN("%s") ') % a
            lines[l - 1] = s[:c - 1] + m + s[c - 1:]
        # comments
        sup = set()
        hot = {v[5] for v in vs}
        if rng.random() < 0.8:
            p = rng.choice([0.02, 0.1, 0.3, 0.6])
            for i, s in enumerate(lines):
                if rng.random() < (p if i + 1 in hot else p / 4) and not s.startswith('#') and not s.rstrip().endswith('\\') and '//' not in s:
                    c = rng.choice(GOOD) if rng.random() < 0.75 else rng.choice(BAD)
                    lines[i] = s + c
                    if has_form(c):
                        sup.add(i + 1)
        a = '\n'.join(lines)
        b = a.replace('OCLINT', 'OCLIMT')
        for x in ('annotate("', 'VERIF_ANN("'):
            b = b.replace(x + 'oclint:sup', x + 'oclimt:sup').replace(x + 'oclint::', x + 'oclimt::')
        fa, fb = 'a' + ext, 'b' + ext
        w(fa, a)
        w(fb, b)
        os.makedirs(os.path.join(d, 'base'))
        w('base/body.inc', body.replace('OCLINT', 'OCLIMT'))
        if pre:
            w('base/pre.h', pre)
        # the baseline is in its own directory so that its include is the unsuppressed one
        os.rename(os.path.join(d, fb), os.path.join(d, 'base', fb))
        fb = 'base/' + fb
        order = [fa, fb] if rng.random() < 0.5 else [fb, fa]
        ast = os.path.join(d, 'ast2.json')
        args = ['-report-type', 'verif-events'] + sum([['-rc', '%s=%s' % kv] for kv in sorted(conf.items())], [])
        r = ocl.run_retry(rc.prefix(), args + order + ['--', '-w', '-DVERIF_ANN(x)=__attribute__((annotate(x)))'] + gen.FLAGS[lang], d, env={'VERIF_QUERY': 've', 'VERIF_AST': ast})
        ev = ocl.events(r.out)
        o.files.update({fa: a, fb: b, 'body.inc': body})
        if not rc.usable(o, r, ev):
            return o
        docs = {x['main']: x for x in ocl.asts(ast)}
        pa, pb = os.path.join(d, fa), os.path.join(d, fb)
        ia, ib = os.path.join(d, 'body.inc'), os.path.join(d, 'base', 'body.inc')
        ha, hb = os.path.join(d, 'pre.h'), os.path.join(d, 'base', 'pre.h')
        t = models.TU(docs[pb], b.encode())
        anns = [n for n in t.nodes if n.get('ann') and 'r' in n and 'f' not in n]
        recs = [n for n in t.nodes if n.get('rec') and n.get('isdef') and 'r' in n and 'f' not in n]
        va = {(v[0], v[3], v[4]) + tuple(v[5:10]) for v in ocl.violations(ev) if v[4] in (pa, ia, ha)}
        vb = {(v[0], v[3], v[4]) + tuple(v[5:10]) for v in ocl.violations(ev) if v[4] in (pb, ib, hb)}
        bodysup = {i + 1 for i, l in enumerate(body.split('\n')) if '//!OCLINT' in l}
        want, skip, nsup, why = set(), set(), 0, {}
        for v in vb:
            path = {pb: pa, ib: ia, hb: ha}[v[2]]
            x = (v[0], v[1], path) + v[3:]
            hit = None
            if path == pa and v[3] in sup:
                hit = 'comment'
            if path == ia and v[3] in bodysup:
                hit = 'comment in an included file'
            if not hit and path == pa:
                for n in anns:
                    r4 = n['r']
                    if v[1] == 'LongLine':
                        inside = r4[0] <= v[3] <= r4[2]
                    else:
                        inside = tuple(r4[:2]) <= v[3:5] and v[5:7] <= tuple(r4[2:])
                    if inside and any(covers(z, v[0]) for z in n['ann']):
                        hit = 'annotated ' + n['k']
                        if n['k'] in ('VarDecl', 'FieldDecl', 'ParmVarDecl') and any(tuple(r4[:2]) <= tuple(q['r'][:2]) <= v[3:5] and v[5:7] <= tuple(q['r'][2:]) <= tuple(r4[2:])
                                                                        for q in recs if not q.get('lambda')):
                            skip.add(x)
                        break
            if not hit and path == ia:
                # within an annotated function of the including file
                for n in anns:
                    if n.get('n') == 'incfn' and any(covers(z, v[0]) for z in n['ann']):
                        hit = 'annotated function around an include'
            if hit:
                nsup += 1
                o.stats[hit] += 1
                why[x] = hit
                o.sig.append((hit, v[1], lang))
            else:
                want.add(x)
        full = lambda v: '%s (%s) %s:%s' % (v[1], v[0], os.path.basename(v[2]), v[3:7])
        for x in sorted(va - want - skip)[:3]:
            o.bad('kept:%s:%s' % (x[1], why.get(x, 'new')), 'reported in spite of its suppression (%s): %s\n%s' % (why.get(x, 'not reported without suppressions'), full(x), rc.snippet(a, (0, 0, x[3], 0, x[5]))))
        for x in sorted(want - va - skip)[:3]:
            o.bad('lost:%s' % x[1], 'suppressed, but nothing covers it: %s\n%s' % (full(x), rc.snippet(a, (0, 0, x[3], 0, x[5]))))
        o.n = len(vb)
        o.stats['suppressed'] += nsup
        o.stats['left alone'] += len(want & va)
        o.sample = {'lang': lang, 'annotations': [i[2] for i in ins][:4], 'suppressing_lines': len(sup), 'suppressed': nsup, 'left_alone': len(want & va)}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return o


def plan(tier, seed):
    langs = ['c', 'cxx', 'objc', 'objcxx', 'cxx', 'c89']
    for i in range(600 if tier == 'quick' else 25000):
        yield {'lang': langs[i % len(langs)], 'seed': '%d-%d' % (seed, i)}


if __name__ == '__main__':
    check.main('C07', case, plan, setup=rc.setup,
               rule='distinct (way of covering, rule, language) for which a violation reported without suppressions was suppressed; every other '
                    'violation of both runs was required to be unaffected')
