"""C10: every requested source is compiled as told and analysed exactly once; nothing but the report is written.

Random projects with compilation databases (and without). What each compile command means for the source is computed
here; a rule plugin reports each translation unit it is given, with everything that the preprocessor left in it."""
import hashlib, json, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, ocl

PFX = None


def setup():
    global PFX
    PFX = ocl.Prefix('c10', rules=('EmptyIfStatementRule',), reporters=('JSONReporter',), plugins=('tu', 'events'))


def plan(tier, seed):
    for i in range(2500 if tier == 'quick' else 40000):
        yield [seed, i]


def snap(*roots):
    s = {}
    for root in roots:
        for dp, dn, fn in os.walk(root):
            for f in fn + dn:
                p = os.path.join(dp, f)
                st = os.lstat(p)
                if os.path.isfile(p) and not os.path.islink(p):
                    s[p] = (st.st_mtime_ns, st.st_ino, hashlib.sha1(open(p, 'rb').read()).hexdigest())
                else:
                    s[p] = ('dir' if os.path.isdir(p) else st.st_mode, st.st_ino)
    return s


MACROS = ['ALPHA', 'BETA', 'GAMMA', 'DELTA']
DIRS = ['src', 'my dir', 'src/deep', 'other', 'd\u00e9j\u00e0', "it's", 'lib (old)', 'a+b', 'x#y', '100%', 'src/src']


class Source:
    """segments; text() and what() must agree on what a compile command makes of them"""

    def __init__(self, r, uid, broken):
        self.segs = []
        for _ in range(r.randrange(2, 6)):
            self.segs.append(r.choice([('m', r.choice(MACROS)), ('v', r.choice(MACROS), r.randrange(1, 4)), ('cfg',), ('cpp',), ('oclint',),
                                       ('opt',), ('uchar',), ('plain',), ('warn',), ('sys',)]))
        if ('oclint',) not in self.segs and r.random() < 0.7:
            self.segs.append(('oclint',))
        self.uid = uid
        self.broken = broken
        if broken:
            self.segs.insert(r.randrange(len(self.segs) + 1), ('bad', broken))

    def text(self):
        o = []
        for k, s in enumerate(self.segs):
            n = '%s_%d' % (self.uid, k)
            if s[0] == 'm':
                o.append('#ifdef %s\nint %s_yes;\n#else\nint %s_no;\n#endif' % (s[1], n, n))
            elif s[0] == 'v':
                o.append('#if defined(%s) && (%s + 0) == %d\nint %s_yes;\n#else\nint %s_no;\n#endif' % (s[1], s[1], s[2], n, n))
            elif s[0] == 'cfg':
                o.append('#include "cfg.h"')
            elif s[0] == 'cpp':
                o.append('#ifdef __cplusplus\nint %s_yes;\n#else\nint %s_no;\n#endif' % (n, n))
            elif s[0] == 'oclint':
                o.append('#ifdef __OCLINT__\nint %s_yes;\n#else\nint %s_no;\n#endif' % (n, n))
            elif s[0] == 'opt':
                o.append('#ifdef __OPTIMIZE__\nint %s_yes;\n#else\nint %s_no;\n#endif' % (n, n))
            elif s[0] == 'uchar':
                o.append('#ifdef __CHAR_UNSIGNED__\nint %s_yes;\n#else\nint %s_no;\n#endif' % (n, n))
            elif s[0] == 'warn':
                o.append('#warning "note %s"' % n)
            elif s[0] == 'sys':
                o.append('#include <stddef.h>\nsize_t %s_sz;' % n)
            elif s[0] == 'bad':
                c = {'always': None, 'ALPHA': 'ALPHA', 'BETA': 'BETA'}[s[1][0]]
                t = {'error': '#error "stop %s"' % n, 'syntax': 'int %s = ;' % n, 'include': '#include "no such %s.h"' % n,
                     'type': 'unknown_%s_t v_%s;' % (n, n), 'template': 'int %s(void) { return undeclared_%s; }' % (n, n)}[s[1][1]]
                o.append(t if c is None else '#ifdef %s\n%s\n#endif' % (c, t))
            else:
                o.append('int %s_p;\nint %s_f(void) { return 0; }' % (n, n))
        return '\n'.join(o) + '\n'

    def what(self, env):
        """names declared, warnings, error (None or a kind)"""
        names, warns, err, cfg = [], [], [], False
        for p in env['pre']:
            names.append(p)
        for k, s in enumerate(self.segs):
            n = '%s_%d' % (self.uid, k)
            yes = None
            if s[0] == 'm':
                yes = s[1] in env['def']
            elif s[0] == 'v':
                yes = env['def'].get(s[1]) == s[2]
            elif s[0] == 'cfg':
                if env['cfg'] is None:
                    err.append('missing cfg')
                    break
                if not cfg:
                    names.append(env['cfg'])
                cfg = True
            elif s[0] == 'cpp':
                yes = env['lang'] in ('c++', 'objc++')
            elif s[0] == 'oclint':
                yes = True
            elif s[0] == 'opt':
                yes = env['opt']
            elif s[0] == 'uchar':
                yes = env['uchar']
            elif s[0] == 'warn':
                warns.append('"note %s"' % n)
            elif s[0] == 'sys':
                names.append(n + '_sz')
            elif s[0] == 'bad':
                if s[1][0] == 'always' or s[1][0] in env['def']:
                    err.append(s[1][1])
                    if s[1][1] == 'include':
                        break
            else:
                names += [n + '_p', n + '_f']
            if yes is not None:
                names.append(n + ('_yes' if yes else '_no'))
        return names, warns, err


def shell(r, args):
    out = []
    for a in args:
        if re.fullmatch(r'[A-Za-z0-9_./=+,-]+', a) and r.random() < 0.9:
            out.append(a)
        elif '"' not in a and '\\' not in a and r.random() < 0.5:
            out.append('"%s"' % a)
        else:
            out.append(re.sub(r'([^A-Za-z0-9_./=+,\u0080-\uffff-])', r'\\\1', a))
    return ' '.join(out)


def outputs(r, base, odir):
    """flags about output and code generation, which change nothing; with the files they would write"""
    f = []
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        q = odir + '/' + base + r.choice(['.x1', '.x2'])
        f += r.choice([['-MD'], ['-MMD'], ['-MD', '-MF', q], ['-MMD', '-MF' + q], ['-MD', '-MT', 'tgt'], ['-MD', '-MQ', 'tgt'], ['-MJ', q], ['-MP', '-MD'],
                       ['--serialize-diagnostics', q], ['-serialize-diagnostics', q], ['-Wp,-MD,' + q], ['-Wp,-MMD,' + q], ['-g'], ['-gsplit-dwarf'],
                       ['-save-temps'], ['-save-temps=obj'], ['-ftime-trace'], ['-flto'], ['--coverage'], ['-fprofile-instr-generate'],
                       ['-fsave-optimization-record'], ['-emit-llvm'], ['-fsyntax-only'], ['-pipe'], ['-gmodules'], ['-fPIC'], ['-MG', '-MD'],
                       ['-foptimization-record-file=' + q], ['-fstack-usage'], ['-fcolor-diagnostics'], ['-MV', '-MD']])
    return f


def case(spec):
    seed, i = spec
    r = check.rng_of('C10', seed, i)
    o = check.Outcome()
    d = ocl.mkd('c10-%d-%s' % (os.getpid(), check.h(spec)))
    try:
        home, tmp, proj, start = d + '/home', d + '/tmp', d + '/pr oj', d + '/st art'
        for x in (home, tmp, proj, start):
            os.mkdir(x)
        mode = r.choice(['json'] * 7 + ['fixed', 'flags', 'none', 'emptydb'])
        dirs = r.sample(DIRS, r.randrange(1, 4))
        for x in dirs:
            os.makedirs(proj + '/' + x, exist_ok=True)
        os.makedirs(proj + '/out', exist_ok=True)
        incs = []
        for k in range(2):
            p = proj + '/inc%d' % k
            os.makedirs(p)
            if r.random() < 0.75:
                open(p + '/cfg.h', 'w').write('#ifndef CFG\n#define CFG\nint cfg_inc%d;\n#endif\n' % k)
                incs.append(p)
        srcs, path_of = [], {}
        for k in range(r.choice([1, 2, 2, 3, 5])):
            dd = r.choice(dirs)
            ext = r.choice(['.c', '.c', '.cpp', '.cc', '.cxx', '.m', '.mm'])
            base = r.choice(['a', 'main', 'b b', 'same', 'x-y', '\u00fcber', 's%d' % k])
            p = '%s/%s/%s%s' % (proj, dd, base, ext)
            if p in path_of:
                continue
            broken = (r.choice(['always', 'always', 'ALPHA', 'BETA']), r.choice(['error', 'syntax', 'include', 'type', 'template'])) \
                if r.random() < 0.25 else None
            s = Source(r, 'u%d' % k, broken)
            s.path, s.dir, s.ext = p, proj + '/' + dd, ext
            path_of[p] = s
            srcs.append(s)
            open(p, 'w').write(s.text())
        for x in dirs:
            if r.random() < 0.3:
                open(proj + '/' + x + '/cfg.h', 'w').write('#ifndef CFG\n#define CFG\nint cfg_%s;\n#endif\n' % hashlib.sha1(x.encode()).hexdigest()[:6])
        pre = r.random() < 0.4
        wd_pool = [proj, proj + '/out'] + [s.dir for s in srcs]
        for w in set(wd_pool):
            # same relative name, another content in each directory
            open(w + '/pre.h', 'w').write('#pragma once\nint pre_%s;\n' % hashlib.sha1(w.encode()).hexdigest()[:6])

        absolute = [False]

        def rel(p, w):
            return os.path.relpath(p, w) if r.random() < 0.6 and not absolute[0] else p

        def command(s, w):
            """arguments and what they mean"""
            env = {'def': {}, 'pre': [], 'opt': False, 'uchar': False}
            lang = {'.c': 'c', '.m': 'objc', '.mm': 'objc++'}.get(s.ext, 'c++')
            a = []
            quote = [s.dir]
            order = []
            for _ in range(r.randrange(0, 6)):
                k = r.randrange(9)
                if k < 3:
                    m = r.choice(MACROS)
                    v = r.randrange(1, 4)
                    if r.random() < 0.3:
                        a.append('-D' + m)
                        env['def'][m] = 1
                    elif r.random() < 0.5:
                        a += ['-D', '%s=%d' % (m, v)]
                        env['def'][m] = v
                    else:
                        a.append('-D%s=%d' % (m, v))
                        env['def'][m] = v
                elif k == 3:
                    m = r.choice(MACROS)
                    a += r.choice([['-U' + m], ['-U', m]])
                    env['def'].pop(m, None)
                elif k == 4 or k == 5:
                    p = proj + '/inc%d' % r.randrange(2)
                    a += r.choice([['-I' + rel(p, w)], ['-I', rel(p, w)]])
                    order.append(p)
                elif k == 6:
                    a.append(r.choice(['-O2', '-O1', '-Os', '-O3', '-O0']))
                    env['opt'] = a[-1] != '-O0'
                elif k == 7:
                    a.append(r.choice(['-funsigned-char', '-fsigned-char']))
                    env['uchar'] = a[-1] == '-funsigned-char'
                elif k == 8:
                    f = outputs(r, 'o', proj + '/out')
                    if mode == 'fixed' and '-MJ' in f:
                        f = []         # written by clang's own reading of the command line
                    a += f
            if pre and r.random() < 0.6:
                a += ['-include', 'pre.h']
                env['pre'] = ['pre_' + hashlib.sha1(w.encode()).hexdigest()[:6]]
            if r.random() < 0.15 and mode != 'fixed':
                lang = r.choice(['c', 'c++', 'objc', 'objc++'])
                a += ['-x', {'objc': 'objective-c', 'objc++': 'objective-c++'}.get(lang, lang)]
            if r.random() < 0.15:
                a.append('-std=' + (r.choice(['c++17', 'c++20', 'gnu++14']) if '++' in lang else r.choice(['c99', 'gnu11', 'c17'])))
            env['lang'] = lang
            env['cfg'] = None
            for p in quote + order:
                if os.path.exists(p + '/cfg.h'):
                    env['cfg'] = 'cfg_' + (os.path.basename(p) if os.path.basename(p).startswith('inc') else
                                           hashlib.sha1(os.path.relpath(p, proj).encode()).hexdigest()[:6])
                    break
            return a, env
        db, plan_, again = [], {}, 0
        args = []
        if mode == 'json':
            for s in srcs:
                same = r.random() < 0.4
                for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
                    w = r.choice(wd_pool)
                    if same and s.path in plan_ and r.random() < 0.7:
                        # the same arguments again, in this or another directory, where pre.h is another file
                        full, _, env = r.choice(plan_[s.path])
                        if env['pre']:
                            env = dict(env, pre=['pre_' + hashlib.sha1(w.encode()).hexdigest()[:6]])
                        db.append({'directory': w, 'file': s.path, **({'arguments': full} if r.random() < 0.5 else {'command': shell(r, full)})})
                        plan_[s.path].append((full, w, env))
                        again += 1
                        continue
                    absolute[0] = same
                    a, env = command(s, w)
                    drv = r.choice(['clang', 'cc', '/usr/bin/clang', 'gcc', 'clang-18']) if env['lang'] in ('c', 'objc') or '-x' in a else \
                        r.choice(['clang++', 'c++', 'g++', '/usr/bin/clang++', 'clang'])
                    fn = rel(s.path, w)
                    tail = r.choice([['-c', fn, '-o', proj + '/out/o.o'], ['-o', '../o2.o', '-c', fn], ['-c', fn], [fn, '-c', '-oout/o.o'],
                                     ['-c', '-o', 'o3.o', '--', fn], ['-S', fn, '-o', 'o.s'], ['-E', fn], [fn]])
                    full = [drv] + a + tail
                    e = {'directory': w, 'file': rel(s.path, w)}
                    # in a database the file must be found under its own path
                    if r.random() < 0.5:
                        e['arguments'] = full
                    else:
                        e['command'] = shell(r, full)
                    absolute[0] = False
                    db.append(e)
                    plan_.setdefault(s.path, []).append((full, w, env))
            for x in range(r.choice([0, 0, 1])):
                db.append({'directory': proj, 'file': proj + '/elsewhere%d.c' % x, 'arguments': ['cc', '-DNOT', '-c', 'elsewhere%d.c' % x]})
            if r.random() < 0.5:
                # keep the order of the commands of one source
                r.shuffle(db)
                for s in srcs:
                    mine = [e for e in db if os.path.normpath(os.path.join(e['directory'], e['file'])) == s.path]
                    new = []
                    for e in mine:
                        for t in plan_[s.path]:
                            if t[1] == e['directory'] and (e.get('arguments') == t[0] or (('command' in e) and unshell(e['command']) == t[0])) and new.count(t) < plan_[s.path].count(t):
                                new.append(t)
                                break
                    if len(new) != len(plan_[s.path]):
                        o.discard = 'harness: order'
                        return o
                    plan_[s.path] = new
            json.dump(db, open(proj + '/compile_commands.json', 'w'), ensure_ascii=r.random() < 0.5)
            args = ['-p', rel(proj, start)]
        elif mode == 'emptydb':
            open(proj + '/compile_commands.json', 'w').write('[]')
            args = ['-p', proj]
            for s in srcs:
                plan_[s.path] = []
        elif mode == 'flags':
            w = proj
            s0 = srcs[0]
            a, env = command(s0, w)
            a = [x for x in a if x]
            if '-x' in a or any(x.startswith('-std') for x in a) or any('\n' in x for x in a):
                a, env = [], dict(env, **{'def': {}, 'pre': [], 'opt': False, 'uchar': False, 'cfg': None})
            open(proj + '/compile_flags.txt', 'w').write('\n'.join(a) + '\n')
            args = ['-p', proj]
            for s in srcs:
                plan_[s.path] = [(a, w, refit(s, a, w, env, proj))]
        else:
            w = start
            shutil.copy(proj + '/pre.h', start + '/pre.h')
            open(start + '/pre.h', 'w').write('#pragma once\nint pre_%s;\n' % hashlib.sha1(start.encode()).hexdigest()[:6])
            a, env = command(srcs[0], w) if mode == 'fixed' else ([], {'def': {}, 'pre': [], 'opt': False, 'uchar': False})
            if any(x.startswith('-std') for x in a):
                a, env = [], {'def': {}, 'pre': [], 'opt': False, 'uchar': False}
            for s in srcs:
                plan_[s.path] = [(a, w, refit(s, a, w, env, proj))]
        req = list(srcs)
        r.shuffle(req)
        if len(req) > 2 and r.random() < 0.3:
            req.pop()
        glob = r.random() < 0.35
        chk = r.random() < 0.2
        if glob:
            args.append('-enable-global-analysis')
        if chk:
            args.append('-enable-clang-static-analyzer')
        rep = r.choice(['-', 'rep', d + '/st art/sub/rep', '../rep'])
        os.mkdir(start + '/sub')
        if rep != '-':
            args += ['-o', rep]
            if r.random() < 0.5:
                open(os.path.join(start, rep), 'w').write('old ' * 5000)
        # files that a build would have left
        for x in ('out/o.o', 'out/o.x1', 'out/o.x2', 'out/o.d', 'o3.o', 'o2.o', 'o.d'):
            if r.random() < 0.6:
                open(proj + '/' + x, 'w').write('precious')
        fnames = []
        for s in req:
            p = s.path
            k = r.random()
            if k < 0.4:
                p = os.path.relpath(p, start)
            elif k < 0.5:
                p = start + '/../pr oj/' + os.path.relpath(s.path, proj)
            elif k < 0.6:
                p = './' + os.path.relpath(p, start)
            fnames.append(p)
        args += ['-allow-duplicated-violations', '-report-type', 'verif-events'] + fnames
        if mode == 'fixed':
            args += ['--'] + a
        elif mode == 'none':
            args += ['--'] if r.random() < 0.3 else []
        before = snap(home, tmp, proj, start, os.path.dirname(PFX.bin))
        q = ocl.run_retry(PFX, args, start, {'HOME': home, 'TMPDIR': tmp, 'TMP': tmp})
        after = snap(home, tmp, proj, start, os.path.dirname(PFX.bin))
        repf = None if rep == '-' else os.path.normpath(os.path.join(start, rep))
        ch = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p) and p != repf)
        cmds = [(s.path, f, w) for s in req for f, w, _ in plan_[s.path]]
        desc = 'mode %s args %r commands %r' % (mode, args, cmds)
        o.files['desc'] = desc + '\n' + json.dumps(db, indent=1) if db else desc
        o.need(not ch, 'writes', lambda: 'changed files besides the report: %s; %s' % ([p.replace(d, '') for p in ch][:5], desc))
        if q.crashed:
            o.bad('crash', q.crash_text())
            o.files['stderr'] = q.err
            return o
        try:
            doc = q.out if repf is None else open(repf, 'rb').read()
        except OSError:
            doc = b''
        ev = ocl.events(doc)
        if ev is None:
            o.bad('no-report', 'no report, status %d, %s; %s' % (q.rc, q.err.decode('utf-8', 'replace')[-300:], desc))
            return o
        u = lambda s: s.encode('latin-1').decode('utf-8', 'replace')
        vs = [(u(v[4]), u(v[9])) for v in ocl.violations(ev) if v[0] == 'verif tu']
        exp, errs, warns, skipped = [], [], [], []
        for s in req:
            if not plan_[s.path]:
                skipped.append(s.path)
            for _, w, env in plan_[s.path]:
                n, wn, er = s.what(env)
                warns += [(s.path, x) for x in wn]
                if er:
                    errs += [(s.path, x) for x in er]
                else:
                    exp.append((s.path, ' '.join([env['lang']] + n)))
        norm = lambda p: os.path.normpath(os.path.join(start, p))
        vs = [(norm(a), b) for a, b in vs]
        if vs != exp:
            k = next((k for k, (x, y) in enumerate(zip(vs, exp)) if x != y), min(len(vs), len(exp)))
            o.bad('units', 'analysed %d translation units, expected %d; unit %d is %r, expected %r; %s' % (
                len(vs), len(exp), k, vs[k:k + 1], exp[k:k + 1], desc))
        ee = [(norm(u(e[4])), u(e[9])) for e in ev['q'][1][1]]
        o.need({p for p, _ in ee if p != start} >= {p for p, _ in errs} and {p for p, _ in ee} <= {p for p, _ in errs} | {norm('')}, 'errors',
               lambda: 'errors in %s, expected in %s; %s' % (ee[:4], errs, desc))
        pat = {'error': 'stop', 'syntax': 'expected expression', 'include': 'no such', 'type': 'unknown type', 'template': 'undeclared',
               'missing cfg': "'cfg.h' file not found"}
        for p, k in set(errs):
            n = sum(1 for a, b in errs if (a, b) == (p, k))
            g = sum(1 for a, b in ee if a == p and pat[k] in b)
            o.need(g == n, 'errors', lambda: '%d errors "%s" for %s, expected %d: %s; %s' % (g, pat[k], p, n, ee[:4], desc))
        ww = [(norm(u(e[4])), u(e[9])) for e in ev['q'][2][1] if '"note u' in u(e[9])]
        o.need(sorted(ww) == sorted(warns), 'warnings', lambda: 'warnings %s, expected %s; %s' % (ww[:5], warns[:5], desc))
        err = q.err.decode('utf-8', 'replace')
        note = re.findall(r'^Skipping (.*)\. Compile command not found\.$', err, re.M)
        o.need([norm(x) for x in note] == skipped, 'skip', lambda: 'skipped with notice %s, expected %s; %s' % (note, skipped, desc))
        rc = 6 if errs else 0
        o.need(q.rc == rc or (q.rc == 5 and rc == 0), 'status', lambda: 'status %d, expected %d; %s' % (q.rc, rc, desc))
        o.stats['translation units observed'] += len(vs)
        o.stats['sources that fail'] += len(errs)
        o.stats['mode ' + mode] += 1
        o.stats['commands with the arguments of another'] += again
        o.stats['global' if glob else 'one by one'] += 1
        o.stats['with static analyzer'] += chk
        o.stats['files watched'] += len(before)
        if exp or errs:
            o.sig.append((mode, glob, chk, len(req), len(exp), len(errs), tuple(sorted({f for c in cmds for f in c[1] if f.startswith('-')}))))
        o.sample = {'mode': mode, 'requested': len(req), 'commands': [' '.join(f[:8]) for _, f, _ in cmds][:2], 'units': exp[:1]}
        if not o.viol:
            o.files = {}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return o


def unshell(c):
    import shlex
    return shlex.split(c)


def refit(s, a, w, env, proj):
    """the same flags applied to another source"""
    e = dict(env)
    lang = {'.c': 'c', '.m': 'objc', '.mm': 'objc++'}.get(s.ext, 'c++')
    if '-x' in a:
        x = a[a.index('-x') + 1]
        lang = {'objective-c': 'objc', 'objective-c++': 'objc++'}.get(x, x)
    e['lang'] = lang
    order, k = [s.dir], 0
    while k < len(a):
        if a[k] == '-I':
            order.append(os.path.normpath(os.path.join(w, a[k + 1])))
            k += 1
        elif a[k].startswith('-I'):
            order.append(os.path.normpath(os.path.join(w, a[k][2:])))
        k += 1
    e['cfg'] = None
    for p in order:
        if os.path.exists(p + '/cfg.h'):
            e['cfg'] = 'cfg_' + (os.path.basename(p) if os.path.basename(p).startswith('inc') else
                                 hashlib.sha1(os.path.relpath(p, proj).encode()).hexdigest()[:6])
            break
    return e


if __name__ == '__main__':
    check.main('C10', case, plan, setup=setup, targets=('oclint', 'rules', 'reporters', 'plugins'),
               rule='distinct combinations of database kind, analysis mode, numbers of sources, units and failures, and flags used',
               assumptions=['-MJ after "--" is carried out by the tooling library of clang before oclint sees the command',
                            'no backslashes in file names (clang\'s tooling library rewrites them)',
                            'a source listed in no entry of a non-empty database has a command inferred by clang\'s tooling library',
                            "the compiler's module cache is not watched"])
