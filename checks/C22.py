"""C22: the rule framework. Rules on each base class log what they are given; a reference finds what they should be given."""
import json, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, cross, gen, ocl, rulecheck as rc

LANGS = ['c', 'cxx', 'objc', 'objcxx', 'c89']
HEADER = '''#ifndef IN_H
#define IN_H
int inHeader ( int a ) { if ( a ) { return 1 ; } return inHeader ( 0 ) ; }
#define MAKE(n) int n ( int a ) { if ( a ) return 1 ; return 0 ; }
#define DECL int
#define OPEN {
static int headerVar = 3 ;
#endif
'''
# around the generated program: what comes from elsewhere, and what looks as if it did
AROUND = ['#include "in.h"\nMAKE(made%d)\n', '#include "in.h"\nDECL viaMacro%d = 1;\n', 'struct Split%d {\n#include "part.h"\n};\n', 'int arr%d[] = {\n#include "values.h"\n};\n',
          'int body%d(int a) {\n#include "body.h"\n}\n', '#include "in.h"\nint open%d(void) OPEN return 0; }\n', '#define LOCAL%d int\nLOCAL%d local%d;\n', ';\n', '#include "in.h"\n#include "in.h"\nint after%d;\n',
          '#pragma pack(1)\nint packed%d;\n', '#include "tail.h"\ntail%d;\n', 'int first%d, second%d, third%d;\n', '_Pragma("GCC diagnostic push") int prag%d;\n']
SMALL = ['', '\n', '\n\n\n', 'int a;', 'int a;\n', ' ', '// only a comment', '// c\n// d', 'int a;\n\n', '\r\n', 'int a;\r\nint b;\r\n', 'int a;\rint b;\n', '#if 0\nint a;\n#endif\n', 'int a; \\\nint b;\\\n\n',
         '\ufeffint a;\n', 'int a; // \u00e4\u00f6\u20ac\n', '\x0c\nint a;\x0b\n', 'int a' + ' ' * 3000 + ';\n', '/* open\n\n\n*/ int a;', '#include "in.h"', '#include "in.h"\n', '\t\n', 'int a;\n\\\n', 'int a; // \x00 \n']


def program(rng, lang):
    """(text, {header: text})"""
    hs = {'in.h': HEADER, 'part.h': 'int p1; int p2;\n', 'values.h': '1, 2,\n3\n', 'body.h': 'if (a) { return 2; } return 3;\n', 'tail.h': 'int before; static\nint\n'}
    k = rng.random()
    if k < 0.3:
        text = rng.choice(SMALL)
        if rng.random() < 0.3:
            text += rng.choice(SMALL)
    else:
        text, pre = gen.source(rng, lang, size=rng.choice([1, 2, 4, 6, 8]))
        if pre:
            hs['pre.h'] = pre
        for i in range(rng.choice([0, 1, 2, 4])):
            a = rng.choice(AROUND)
            a = a.replace('%d', str(i))
            text = a + text if rng.random() < 0.3 else text + a
        if rng.random() < 0.2:
            text = text.rstrip('\n')
        if rng.random() < 0.15 and '\\' not in text:
            text = text.replace('\n', '\r\n')
    return text.replace('!OCLINT', '!OCLIMT').replace('oclint:suppress', 'oclimt:suppress'), hs


def blocks(rows):
    """[(file, events)] between each beginning and end; None if they are not properly paired"""
    out, cur = [], None
    for what, rest in rows:
        if what == 'B':
            if cur is not None:
                return None
            cur = (rest, [])
        elif what == 'E':
            if cur is None:
                return None
            out.append(cur)
            cur = None
        elif cur is None:
            return None
        else:
            cur[1].append((what, rest))
    return out if cur is None else None


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'event %d is %s instead of %s' % (i, x, y)
    return '%d events instead of %d (%s)' % (len(a), len(b), ((a + b)[min(len(a), len(b))],))


def case(spec):
    o = check.Outcome()
    seed = spec['seed']
    rng = check.rng_of(seed, 'c22')
    d = ocl.mkd('c22-' + check.h(seed))
    try:
        return judge(o, rng, d, seed)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(o, rng, d, seed):
    files, db = [], []
    for i in range(rng.choice([1, 1, 2, 3, 5])):
        u = os.path.join(d, 'u%d' % i)
        os.makedirs(u)
        lang = rng.choice(LANGS)
        text, hs = program(rng, lang)
        f = os.path.join(u, 'm' + gen.EXT[lang])
        b = text.encode('utf-8', 'surrogateescape')
        open(f, 'wb').write(b)
        o.files['u%d-%s' % (i, os.path.basename(f))] = b
        for k, v in hs.items():
            open(os.path.join(u, k), 'w').write(v)
        if rng.random() < 0.3 and i:
            # the same headers for all
            for k, v in hs.items():
                if k != 'pre.h':
                    os.unlink(os.path.join(u, k))
                    os.symlink(os.path.join(d, 'u0', k), os.path.join(u, k))
        files.append((f, lang, b))
        db.append({'directory': u, 'file': f, 'arguments': ['clang', '-w'] + gen.FLAGS[lang] + ['-c', f]})
    json.dump(db, open(os.path.join(d, 'compile_commands.json'), 'w'))
    log = os.path.join(d, 'log')
    glob = rng.random() < 0.3
    r = ocl.run_retry(prefix(), ['-p', d, '-report-type', 'verif-events'] + (['-enable-global-analysis'] if glob else []) + [f for f, _, _ in files], d,
                      env={'VERIF_QUERY': 've', 'VERIF_FRAME': log})
    o.files['command'] = ' '.join(r.cmd)
    o.files['stderr'] = r.err
    ev = ocl.events(r.out)
    if not rc.usable(o, r, ev):
        return o
    per, at = {}, []
    for l in open(log, 'rb').read().decode('latin-1').split('\n') if os.path.exists(log) else []:
        if l:
            tag, what, rest = l.split(' ', 2)
            if tag == 'refat':
                n = rest.split(' ', 4)
                at.append(('FrameReports', n[4], int(n[0]), int(n[1]), int(n[2]), int(n[3]), what))
            else:
                per.setdefault(tag, []).append((what, rest))
    ref = blocks(per.get('ref', []))
    refm = blocks(per.get('refm', []))
    if not o.need(ref is not None and sorted(os.path.normpath(f) for f, _ in ref) == sorted(f for f, _, _ in files), 'sources',
                  lambda: 'a rule was applied to %s, the sources are %s' % ([f for f, _ in ref or []], [f for f, _, _ in files])):
        return o
    lang = {os.path.normpath(f): l for l, f in per.get('lang', [])}
    o.n = 0
    kinds = set()

    def agree(tag, name, want, same=lambda x: x):
        got = blocks(per.get(tag, []))
        if not o.need(got is not None, tag + ':pairing', '%s: setUp and tearDown do not enclose each source once' % name):
            return
        if not o.need([f for f, _ in got] == [f for f, _ in want], tag + ':sources', lambda: '%s: given the sources %s instead of %s' % (name, [f for f, _ in got], [f for f, _ in want])):
            return
        for (f, a), (_, b) in zip(got, want):
            o.n += max(len(b), 1)
            o.stats['%s: events' % name] += len(b)
            o.need(same(a) == same(b), tag + ':events', lambda: '%s, %s: %s' % (name, os.path.relpath(f, d), first_difference(same(a), same(b))))
    agree('vis', 'visitor rule', ref)
    # it stops where it starts: one declaration each
    tops, cur = [], []
    for what, rest in per.get('top', []):
        if what == 'E':
            tops.append(cur)
            cur = []
        else:
            cur.append((what, rest))
    # a top-level declaration that is implicit is not visited
    agree('stop', 'visitor rule that stops', [(f, [x for x in t if x in set(e)]) for (f, e), t in zip(ref, tops)])
    agree('objc', 'Objective-C visitor rule', [(f, e) for f, e in ref if lang[os.path.normpath(f)] == 'objc'])
    agree('mat', 'matcher rule', refm, sorted)
    agree('mat2', 'second matcher rule', [(f, [x for x in e if x[0] == 'i']) for f, e in refm])
    bytes_of = {f: b for f, _, b in files}
    lines = []
    for f, _ in ref:
        b = bytes_of[os.path.normpath(f)]
        ls = b.split(b'\n')
        if not ls[-1]:
            ls.pop()
        lines.append((f, ls))
    agree('read', 'source reader rule', [(f, [('L', '%d %s' % (i + 1, l.hex())) for i, l in enumerate(ls)]) for f, ls in lines])
    want = set(at) | {('FrameReader', f, i + 1, 1, i + 1, len(l), 'line') for f, ls in lines for i, l in enumerate(ls)}
    rows = rc.rows(ev)
    got = set(rows)
    norm = lambda s: {(x[0], os.path.normpath(x[1])) + tuple(x[2:]) for x in s}
    got, want = norm(got), norm(want)
    for x in sorted(got - want)[:2]:
        o.bad('reports:extra', 'reported, but no rule did: %s' % rc.short(x))
    for x in sorted(want - got)[:2]:
        o.bad('reports:missed', 'a rule reported it, but it is not in the results: %s' % rc.short(x))
    o.need(len(rows) == len(set(rows)), 'reports:repeated', 'results listed more than once')
    o.n += len(want)
    o.stats['reports of rules'] += len(want)
    o.stats['sources'] += len(files)
    for (f, e), (_, m) in zip(ref, refm):
        o.sig += [('k', r.split(' ')[-1], lang[os.path.normpath(f)]) for w, r in e] + [('m', w, len(files), glob) for w, _ in m]
    o.sig = sorted(set(o.sig)) + [('s', check.h(b)) for _, _, b in files]
    o.sample = {'sources': len(files), 'visited': [len(e) for _, e in ref], 'matches': [len(e) for _, e in refm], 'lines': [len(l) for _, l in lines], 'reports': len(want)}
    return o


_prefix = None


def prefix():
    global _prefix
    if _prefix is None:
        _prefix = ocl.Prefix('frame', rules=(), plugins=('events', 'frame'))
    return _prefix


def plan(tier, seed):
    for i in range(700 if tier == 'quick' else 15000):
        yield {'seed': '%d-%d' % (seed, i)}


if __name__ == '__main__':
    check.main('C22', case, plan, setup=prefix,
               rule='distinct (kind of node visited, language), (matcher, sources per run, global analysis) and distinct sources for which all rules were given exactly what '
                    'the reference finds',
               assumptions=['what a traversal with clang\'s RecursiveASTVisitor in its default settings visits is taken from clang'])
