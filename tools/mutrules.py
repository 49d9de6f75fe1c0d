#!/usr/bin/env python3
"""mutrules.py prep DIR            keeps the generated cases of the rule checks with what they expect
mutrules.py run DIR OUT [-n PER_FILE] [-j 8] FILE...   plants small changes in rule sources (mutate.py's), compiles each rule alone
and runs it over the kept cases: what survives is no change of behaviour or something the generators miss.
A tool for whoever works on the checks; no check uses it."""
import argparse, importlib.util, json, multiprocessing, os, random, re, runpy, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
sys.path.insert(0, V + '/tools')
import build, check, gen, models, mutate, ocl, rulecheck

CHECKS = ['C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19']


def norm(rows):
    return sorted([v[0], os.path.basename(v[1])] + list(v[2:]) for v in rows)


def prep(out, only):
    cap = {}
    check.main = lambda pid, case, plan, **k: cap.update({pid: (case, plan)})
    rulecheck.setup()
    ocl.scratch()
    orig_run, orig_cmp = rulecheck.run_text, rulecheck.compare
    cur = {}

    def cmp(o, names, t, got, conf, text):
        e = orig_cmp(o, names, t, got, conf, text)
        cur['exp'] = norm(e)
        return e

    def run_text(o, names, d, f, lang, main, pre, conf, flags=(), keep=False):
        cur.clear()
        orig_run(o, names, d, f, lang, main, pre, conf, flags, keep)
        if 'exp' in cur and not o.viol:
            w = cur_dir[0]
            os.makedirs(w)
            open(w + '/' + f, 'wb').write(main if isinstance(main, bytes) else main.encode('utf-8', 'surrogateescape'))
            if pre is not None:
                open(w + '/pre.h', 'w').write(pre)
            a = ['-report-type', 'verif-events']
            for k, v in sorted(conf.items()):
                a += ['-rc', '%s=%s' % (k, v)]
            json.dump({'args': a + [f, '--', '-w'] + list(flags) + gen.FLAGS[lang], 'exp': cur['exp'], 'names': sorted(names)}, open(w + '/meta.json', 'w'))
        return o
    rulecheck.compare, rulecheck.run_text = cmp, run_text
    cur_dir = [None]

    def work(j):
        c, i, spec = j
        cur_dir[0] = '%s/%s/%05d' % (out, c, i)
        cap[c][0](spec)
        return os.path.isdir(cur_dir[0])
    global _work
    _work = work
    for c in only or CHECKS:
        runpy.run_path(V + '/checks/%s.py' % c, run_name='__main__')
        shutil.rmtree(out + '/' + c, ignore_errors=True)
        jobs = [(c, i, s) for i, s in enumerate(cap[c][1]('quick', 1))]
        with multiprocessing.Pool(8) as p:
            n = sum(p.imap_unordered(_call, jobs))
        print(c, n, 'of', len(jobs), flush=True)


def _call(j):
    return _work(j)


CXXF = None
LOADED = {}


def flags():
    return build.BASE.replace('-O1 -g1', '-O0').split()


def load(d, c):
    if c not in LOADED:
        l = []
        for n in sorted(os.listdir(d + '/' + c)):
            m = json.load(open('%s/%s/%s/meta.json' % (d, c, n)))
            l.append(('%s/%s/%s' % (d, c, n), m['args'], m['exp'], set(m['names'])))
        LOADED[c] = l
    return LOADED[c]


def init(d, w, pch):
    global D, W, P, PCH
    D, PCH = d, pch
    W = tempfile.mkdtemp(dir=w)
    P = None


def run_mutant(t):
    global P
    f, (a, b, rep, kind), cs = t['file'], t['m'], t['checks']
    text = open(f).read()
    t0 = time.time()
    base = os.path.basename(f)[:-4]
    src = W + '/' + base + '.cpp'
    open(src, 'w').write(text[:a] + rep + text[b:])
    so = W + '/lib%s.so' % base
    p = subprocess.run([build.CXX] + flags() + ['-include-pch', PCH, '-iquote', os.path.dirname(f), '-I', os.path.dirname(f), '-shared', src, '-o', so] + [build.B + '/a/lib%s.a' % x for x in ('ruleslib', 'metric', 'core')] + ['-fuse-ld=lld'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    rec = {'file': os.path.relpath(f, '/repo'), 'line': text.count('\n', 0, a) + 1, 'kind': kind, 'old': text[a:b][:200], 'new': rep,
           'src': text.split('\n')[text.count('\n', 0, a)].strip(), 'how': ''}
    if p.returncode:
        rec.update(result='nocompile', how=p.stdout.decode()[:300])
        return rec
    if P is None:
        ocl._scratch = W
        ocl._owner = -1
        P = ocl.Prefix('one', rules=())
    for x in os.listdir(P.rules_dir):
        os.unlink(P.rules_dir + '/' + x)
    os.symlink(so, P.rules_dir + '/lib%s.so' % base)
    q = ocl.run(P, ['-list-enabled-rules', 'x.c', '--'], W)
    mine = set(re.findall(r'^- (\w+)$', q.out.decode('utf-8', 'replace'), re.M))
    rec['result'] = 'SURVIVED'
    if not mine:
        rec.update(result='no rule', how=(q.out + q.err).decode('utf-8', 'replace')[:400])
        return rec
    n = 0
    for c in cs:
        cases = load(D, c)
        r = random.Random(1)
        order = sorted(cases, key=lambda x: (not any(e[0] in mine for e in x[2]), r.random()))
        if order and not any(e[0] in order[0][3] for e in order[0][2]):
            pass
        for wd, args, exp, names in order:
            n += 1
            q = ocl.run_retry(P, args, wd, env={'VERIF_QUERY': 've'})
            if q.crashed:
                rec.update(result=c, how='crash')
                break
            ev = ocl.events(q.out)
            if ev is None:
                rec.update(result=c, how='no report')
                break
            got = norm(v for v in rulecheck.rows(ev) if v[0] in mine | names)
            want = [e for e in exp if e[0] in mine]
            got = [list(dict(enumerate(g)).values()) for g in got]
            if sorted(map(tuple, got)) != sorted(map(tuple, want)) and set(map(tuple, got)) != set(map(tuple, want)):
                rec.update(result=c, how='%s %s' % (os.path.basename(wd), [x for x in map(tuple, got + want) if (x in map(tuple, got)) != (x in map(tuple, want))][:1]))
                break
        if rec['result'] != 'SURVIVED':
            break
    rec['cases'] = n
    rec['s'] = round(time.time() - t0)
    return rec


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('what')
    ap.add_argument('dir')
    ap.add_argument('rest', nargs='*')
    ap.add_argument('-n', type=int, default=10)
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-s', default='1')
    A = ap.parse_intermixed_args()
    if A.what == 'prep':
        return prep(os.path.abspath(A.dir), A.rest)
    out, files = A.rest[0], A.rest[1:]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r['file'], r['line'], r['old'], r['new'], r['kind']))
    tasks = []
    for f in files:
        cs = mutate.checks_for(f)
        if os.path.basename(f) in ('CyclomaticComplexityRule.cpp', 'NPathComplexityRule.cpp', 'NcssMethodCountRule.cpp', 'NestedBlockDepthRule.cpp'):
            cs = ['C13', 'C12']
        if not cs:
            continue
        text = open(f).read()
        ms = [m for m in mutate.mutants(text) if not (m[3] in ('text', 'no text') and not re.search(r'[%A-Z ]', text[m[0]:m[1]][1:2] + 'x' * 0)
                                                      and 'return "' in text[m[0] - 8:m[1]])]
        r = random.Random('%s %s' % (A.s, f))
        if len(ms) > A.n:
            ms = r.sample(ms, A.n)
        tasks += [{'file': f, 'm': m, 'checks': cs} for m in ms
                  if (os.path.relpath(f, '/repo'), text.count('\n', 0, m[0]) + 1, text[m[0]:m[1]][:200], m[2], m[3]) not in done]
    random.Random(2).shuffle(tasks)
    print(len(tasks), 'mutants', flush=True)
    w = tempfile.mkdtemp(prefix='mutrules-')
    try:
        open(w + '/pch.h', 'w').write(build.PCH + '#include "oclint/AbstractASTVisitorRule.h"\n#include "oclint/AbstractASTMatcherRule.h"\n#include "oclint/RuleSet.h"\n')
        subprocess.check_call([build.CXX] + flags() + ['-x', 'c++-header', w + '/pch.h', '-o', w + '/pch'])
        with multiprocessing.Pool(A.j, init, (os.path.abspath(A.dir), w, w + '/pch')) as p:
            for rec in p.imap_unordered(run_mutant, tasks):
                with open(out, 'a') as h:
                    h.write(json.dumps(rec) + '\n')
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    main()
