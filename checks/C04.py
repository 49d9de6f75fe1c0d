"""C04: the exit status tells exactly what happened, and the report is written completely.

Scripted results and real sources, with thresholds at and around the number of violations, and failures injected
at every stage: options, rule loading, reporter loading, processing of a source, opening and writing the report
(missing directory, a directory in its place, a full device, a file size limit, closed standard output)."""
import json, os, re, resource, shutil, signal, subprocess, sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, ocl

P = {}
OK, RULE, REPORTER, PROCESS, REPORT, EXCEED, COMPILE, OPTIONS = range(8)


def setup():
    P['ok'] = ocl.Prefix('c04', rules=(), reporters='all', plugins=('script', 'events'))
    p = P['norules'] = ocl.Prefix('c04a', rules=(), reporters='all', plugins=())
    p = P['norulesdir'] = ocl.Prefix('c04b', rules=(), reporters='all', plugins=())
    os.rmdir(p.rules_dir)
    p = P['badrule'] = ocl.Prefix('c04c', rules=(), reporters='all', plugins=('script',))
    open(p.rules_dir + '/libBad.so', 'w').write('not a library')
    p = P['emptyrule'] = ocl.Prefix('c04d', rules=(), reporters='all', plugins=())
    open(p.rules_dir + '/.hidden', 'w').write('not a library')
    p = P['noreporters'] = ocl.Prefix('c04e', rules=(), reporters=(), plugins=('script',))
    p = P['noreportersdir'] = ocl.Prefix('c04f', rules=(), reporters=(), plugins=('script',))
    os.rmdir(p.reporters_dir)
    p = P['badreporter'] = ocl.Prefix('c04g', rules=(), reporters=(), plugins=('script',))
    open(p.reporters_dir + '/libBad.so', 'w').write('not a library')


def plan(tier, seed):
    for i in range(1800 if tier == 'quick' else 60000):
        yield [seed, i]


TYPES = ['text', 'xcode', 'html', 'json', 'xml', 'pmd', 'verif-events']


def case(spec):
    seed, i = spec
    r = check.rng_of('C04', seed, i)
    o = check.Outcome()
    d = ocl.mkd('c04-%d-%s' % (os.getpid(), check.h(spec)))
    try:
        work, home, proj = d + '/work', d + '/home', d + '/proj'
        for x in (work, home, proj, work + '/sub'):
            os.mkdir(x)
        dup = r.random() < 0.3
        big = r.random() < 0.06
        # results: tokens make every entry recognisable; copies of an entry are duplicates
        cnt, lines, tok, expect_tok = {1: 0, 2: 0, 3: 0}, [], 0, {}
        hx = lambda s: s.encode().hex() or '-'
        prios = [1, 2, 3] if r.random() < 0.9 else [2, 3]
        for k, p in enumerate(prios):
            lines.append('R %s %s %d' % (hx('rule %s' % 'abc'[k]), hx('cat'), p))
        nsrc = r.choice([1, 1, 2, 3])
        for k, p in enumerate(prios):
            n = r.choice([0, 0, 1, 2, 9, 10, 11, 19, 20, 21, 22]) if not big else 1500
            for _ in range(n):
                tok += 1
                t = 'TOK%dT' % tok
                copies = r.choice([1, 1, 1, 2, 3])
                for _ in range(copies):
                    lines.append('V %d %d %s %d 1 %d 2 %s' % (r.randrange(nsrc) if r.random() < 0.5 else 0, k, hx('/f/%d.c' % (tok % 7)), tok, tok, hx(t)))
                c = copies if dup else 1
                cnt[p] += c
                expect_tok[t] = c
        diag = {'e': {}, 'w': {}, 'b': {}}
        for kind, prob in (('e', 0.12), ('w', 0.4), ('b', 0.3)):
            if r.random() < prob:
                for _ in range(r.choice([1, 2, 30])):
                    tok += 1
                    t = 'TOK%dT' % tok
                    copies = r.choice([1, 1, 2])
                    for _ in range(copies):
                        lines.append('%s %s %d 1 0 0 %s' % (kind.upper(), hx('/f/d.c'), tok, hx(t)))
                    diag[kind][t] = copies if dup else 1
        open(d + '/script', 'w').write('\n'.join(lines) + '\n')
        # sources
        names, realerr, processfail = [], 0, False
        usedb = r.random() < 0.4
        db = []
        # the script's first unit must be analysed, so the first source is sound
        for k in range(nsrc):
            nm = 's%d.c' % k
            open(proj + '/' + nm, 'w').write('int v%d;\n' % k)
            names.append(nm)
        if r.random() < 0.2:
            k = r.random()
            if k < 0.6:
                open(proj + '/broken.c', 'w').write(r.choice(['int x = ;\n', '#error no\n', '#include "nosuch.h"\n', 'void f( {\n', 'int a; char *a;\n']))
                names.append('broken.c')
            else:
                names.append('missing.c')
            realerr = 1
        elif r.random() < 0.1:
            open(proj + '/warn.c', 'w').write('#warning careful\nint main(void) { int x; return x; }\n')
            names.append('warn.c')
        for nm in names:
            db.append({'directory': proj, 'file': proj + '/' + nm, 'arguments': ['cc', '-Wall', '-c', nm, '-o', nm + '.o']})
        if usedb and r.random() < 0.12:
            bad = r.choice(['nodir', 'multi', 'filedir', 'nojob'])
            open(proj + '/z.c', 'w').write('int z;\n')
            e = {'directory': proj, 'file': proj + '/z.c', 'arguments': ['cc', '-c', 'z.c']}
            if bad == 'nodir':
                e['directory'] = d + '/nowhere'
            elif bad == 'filedir':
                e['directory'] = proj + '/z.c'
            elif bad == 'multi':
                e['arguments'] = ['cc', '-c', 'z.c', 's0.c']
            else:
                e['arguments'] = ['cc', '-print-search-dirs', 'z.c']
            e['file'] = proj + '/z.c'
            db.append(e)
            names.append('z.c')
            processfail = True
        if len(names) > 1 and r.random() < 0.5 and not realerr:
            r.shuffle(names)
        # thresholds, from the command line, from configuration files or by default
        lim, args, cfg = {1: 0, 2: 10, 3: 20}, [], {}
        for p in (1, 2, 3):
            k = r.random()
            v = r.choice([cnt[p], cnt[p], cnt[p] - 1, cnt[p] + 1, 0, 1000000, 2147483647])
            if k < 0.45:
                args += ['-max-priority-%d=%d' % (p, v)]
                lim[p] = v
                if r.random() < 0.2:
                    cfg['max-priority-%d' % p] = 0 if v else 99
            elif k < 0.65:
                cfg['max-priority-%d' % p] = v
                lim[p] = v
        if r.random() < 0.3:
            for p in (1, 2, 3):
                lim[p] = cnt[p] + r.choice([0, 0, 5])
                args = [a for a in args if not a.startswith('-max-priority-%d' % p)] + ['-max-priority-%d=%d' % (p, lim[p])]
        if dup:
            args.append('-allow-duplicated-violations')
        if r.random() < 0.3:
            args.append('-enable-global-analysis')
        lst = r.random() < 0.2
        if lst:
            args.append('-list-enabled-rules')
        ty = r.choice(TYPES)
        pfx, stage = 'ok', None
        k = r.random()
        if k < 0.04:
            pfx, stage = r.choice([('norules', RULE), ('norulesdir', RULE), ('badrule', RULE), ('emptyrule', RULE)])
        elif k < 0.08:
            pfx, stage = r.choice([('noreporters', REPORTER), ('noreportersdir', REPORTER), ('badreporter', REPORTER)])
        elif k < 0.11:
            ty, stage = r.choice(['nosuch', 'JSON', 'jso', 'text ', 'jsonn']), REPORTER
        elif k < 0.13 and not usedb:
            args += ['-R', proj]          # holds sources, no libraries
            stage = RULE
        elif k < 0.16:
            args.append(r.choice(['-no-such-option', '-max-priority-1=x', '-max-priority-2', '-enable-global-analysis=maybe', '-report-type']))
            stage = OPTIONS
        if stage != OPTIONS or args[-1] not in ('-report-type', '-max-priority-2'):
            if ty != 'text' or r.random() < 0.5:
                if r.random() < 0.8 or ty == 'text ':
                    args[0:0] = ['-report-type', ty]
                else:
                    cfg['report-type'] = ty
        # the report's place
        out = r.choice(['-', '-', 'rep', 'rep', 'sub/rep', d + '/abs', './rep', '../up', 'sub/../rep2'])
        reportfail, limit, stdout = False, None, 'pipe'
        k = r.random()
        if k < 0.05:
            out, reportfail = r.choice(['nodir/rep', d + '/no/rep', 'sub', '/proc/nosuch/rep', work + '/sub/']), True
        elif k < 0.09:
            out, reportfail = '/dev/full', True
        elif k < 0.13:
            out, stdout, reportfail = '-', 'full', True
        elif k < 0.16:
            out, stdout, reportfail = '-', 'closed', True
        elif k < 0.22 and out != '-':
            limit = r.choice([0, 100, 4000, 10000])
        target = None if out == '-' else os.path.join(work, out)
        if target and not reportfail:
            if r.random() < 0.4:
                open(target, 'w').write('OLD CONTENT ' * (20000 if big else 3000))
        oargs = []
        if out != '-' or r.random() < 0.2:
            if r.random() < 0.8 or stage == OPTIONS:
                oargs = ['-o', out]
            else:
                cfg['output'] = out
        if stage == OPTIONS:
            args = oargs + args
        else:
            args += oargs
        if cfg:
            t = ''.join('%s: %s\n' % (k, json.dumps(v) if isinstance(v, str) else v) for k, v in cfg.items())
            open(r.choice([work, home]) + '/.oclint', 'w').write(t)
        if stdout != 'pipe':
            # what clang itself prints to standard output is not what is examined here
            for e in db:
                if '-print-search-dirs' in e['arguments']:
                    e['arguments'] = ['cc', '-c', 'z.c', 's0.c']
        env = {'VERIF_SCRIPT': d + '/script', 'HOME': home}
        rel = [os.path.relpath(proj + '/' + n, work) if r.random() < 0.7 else proj + '/' + n for n in names]
        if stage == OPTIONS:
            allargs = rel + args if args[-1] in ('-report-type', '-max-priority-2') else args + rel
            if args[-1] in ('-report-type', '-max-priority-2'):
                allargs = rel + args
            else:
                allargs += ['--']
        elif usedb:
            json.dump(db, open(proj + '/compile_commands.json', 'w'))
            allargs = ['-p', proj] + args + rel
        else:
            allargs = args + rel + ['--', '-Wall']
        # a report shorter than the limit is no failure
        def pre():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            if stdout == 'full':
                os.dup2(os.open('/dev/full', os.O_WRONLY), 1)
            elif stdout == 'closed':
                os.close(1)
        q = run(P[pfx], allargs, work, env, pre)
        if q.crashed:
            q = run(P[pfx], allargs, work, env, pre)
        desc = 'args %r config %r limit %s stdout %s' % (allargs, cfg, limit, stdout)
        if q.crashed:
            o.bad('crash', q.crash_text() + '; ' + desc)
            o.files['stderr'] = q.err
            return o
        nerr = sum(diag['e'].values()) + realerr
        if stage is not None:
            exp = stage
        elif processfail:
            exp = PROCESS
        elif reportfail and not (ty == 'xcode' and not expect_tok and not lst and (out == '/dev/full' or stdout != 'pipe')):
            exp = REPORT
        elif nerr:
            exp = COMPILE
        elif any(cnt[p] > lim[p] for p in (1, 2, 3)):
            exp = EXCEED
        else:
            exp = OK
        doc = None
        if exp not in (OPTIONS, RULE, REPORTER, PROCESS) and not reportfail:
            try:
                doc = q.out if target is None else open(target, 'rb').read()
            except OSError:
                pass
        if limit is not None and exp not in (OPTIONS, RULE, REPORTER, PROCESS):
            # what had to be written is known from an unlimited run
            s2 = target + '.full'
            def pre2():
                pass
            a2 = list(allargs)
            if '-o' in a2:
                a2[a2.index('-o') + 1] = s2
            else:
                k = a2.index('--') if '--' in a2 else len(a2)
                a2[k:k] = ['-o', s2]
            q2 = run(P[pfx], a2, work, env, pre2)
            try:
                size = os.path.getsize(s2)
            except OSError:
                size = None
            if size is None:
                o.bad('no-report', 'no report, status %d; %s' % (q2.rc, desc))
                return o
            slack = 40
            if size > limit + slack:
                exp = REPORT
            elif size > limit - slack:
                o.discard = 'report about as large as the limit'
                return o
            o.stats['file size limits %s' % ('hit' if exp == REPORT else 'not hit')] += 1
        o.need(q.rc == exp, 'status-%d' % exp, lambda: 'status %d, expected %d: counts %s limits %s errors %d; %s; stderr %s' % (
            q.rc, exp, cnt, lim, nerr, desc, q.err.decode('utf-8', 'replace')[-300:]))
        if exp in (OK, EXCEED, COMPILE) and not reportfail:
            if not o.need(doc is not None, 'no-report', lambda: 'no report at %s; %s' % (target, desc)):
                return o
            if target is None and lst:
                k = doc.find(b'\n\n')
                doc = doc[k + 2:]
            complete(o, doc, ty, expect_tok, diag, desc)
            if target is not None:
                o.need(not any(t in q.out for t in (b'TOK', b'OCLint Report')), 'place', lambda: 'report also on standard output; %s' % desc)
            if exp == EXCEED:
                m = re.search(rb'P1=(\d+)\[(-?\d+)\] P2=(\d+)\[(-?\d+)\] P3=(\d+)\[(-?\d+)\]', q.err)
                o.need(m and [int(x) for x in m.groups()] == [cnt[1], lim[1], cnt[2], lim[2], cnt[3], lim[3]], 'threshold-message',
                       lambda: 'message %s, counts %s limits %s; %s' % (m and m.group(), cnt, lim, desc))
        o.stats['status %d' % exp] += 1
        if exp == REPORT:
            o.stats['report failure: ' + ('limit' if limit is not None else stdout if stdout != 'pipe' else out if out in ('/dev/full', 'sub') else 'no directory')] += 1
        edge = sum(1 for p in (1, 2, 3) if cnt[p] in (lim[p], lim[p] + 1))
        o.stats['thresholds at the edge'] += edge
        o.sig.append((exp, ty, out == '-', usedb, nerr > 0, tuple((cnt[p] > lim[p]) - (cnt[p] < lim[p]) for p in (1, 2, 3)), edge, dup, big))
        o.sample = {'args': allargs[:8], 'config': cfg, 'status': q.rc, 'counts': cnt, 'limits': lim}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return o


def complete(o, doc, ty, viol, diag, desc):
    """every entry is in the report as often as it should, and the document has its end"""
    got = {}
    for t in re.findall(rb'TOK\d+T', doc):
        got[t.decode()] = got.get(t.decode(), 0) + 1
    exp = dict(viol)
    if ty != 'xcode':
        exp.update(diag['b'])
    if ty in ('text', 'html', 'pmd', 'verif-events'):
        exp.update(diag['e'])
        exp.update(diag['w'])
    if got != exp:
        x = sorted(k for k in set(got) | set(exp) if got.get(k) != exp.get(k))
        o.bad('incomplete', '%d entries missing or wrong in the %s report of %d bytes, e.g. %s %s times instead of %s; %s' % (
            len(x), ty, len(doc), x[0], got.get(x[0]), exp.get(x[0]), desc))
    t = doc.rstrip()
    try:
        if ty == 'json':
            json.loads(t.decode())
        elif ty in ('xml', 'pmd'):
            ET.fromstring(t)
        elif ty == 'html':
            o.need(t.lower().startswith(b'<!doctype html') and t.endswith(b'</html>'), 'incomplete', 'HTML does not end; ' + desc)
        elif ty == 'text':
            o.need(b'OLD' not in t and re.search(rb'\[OCLint \(.*\) v.*\]$', t), 'incomplete', 'text does not end; ' + desc)
        elif ty == 'xcode':
            o.need(t == b'' or doc.endswith(b'\n') and len(t.split(b'\n')) == sum(viol.values()), 'incomplete', 'xcode report has other lines; ' + desc)
        else:
            o.need(ocl.events(doc) is not None, 'incomplete', 'cut off; ' + desc)
    except (ValueError, ET.ParseError) as ex:
        o.bad('incomplete', '%s report: %s; %s' % (ty, ex, desc))


def run(prefix, args, cwd, env, pre):
    e = {'PATH': '/usr/bin:/bin', 'LANG': 'C', 'LC_ALL': 'C', 'TZ': 'UTC', 'ASAN_OPTIONS': ocl.ASAN, 'UBSAN_OPTIONS': ocl.UBSAN,
         'ASAN_SYMBOLIZER_PATH': '/usr/lib/llvm-18/bin/llvm-symbolizer'}
    e.update(env)
    q = ocl.Result()
    q.cmd, q.cwd, q.timeout = [prefix.bin] + list(args), cwd, False
    p = subprocess.Popen(q.cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, preexec_fn=pre)
    try:
        q.out, q.err = p.communicate(timeout=90)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        q.out, q.err = p.communicate()
        q.timeout = True
    q.rc = p.returncode
    return q


if __name__ == '__main__':
    check.main('C04', case, plan, setup=setup, targets=('oclint', 'reporters', 'plugins'),
               rule='distinct in status, report type and place, kind of compile command, relation of each count to its limit, duplicates, size',
               assumptions=['with several failures, that of the earliest stage decides: options, rules, reporter, processing, report',
                            'the report goes to a file, a pipe, a full device or a closed descriptor; a signal on a broken pipe is the shell\'s affair'])
