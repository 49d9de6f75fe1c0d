"""C06: configuration sources combine with the documented precedence.

Random settings in any combination of the three configuration files and the command line, in many YAML spellings.
A rule plugin records the effective options from inside the running program; the report's place, its format, the
rules loaded and the thresholds real rules apply are observed too."""
import json, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, ocl

PFX = None
EXTRA = ['EmptyIfStatement', 'ShortVariableName', 'UnusedLocalVariable', 'GotoStatement', 'DeadCode', 'CollapsibleIfStatements']
NAMES = ['VerifOptdump', 'LongLine', 'TooManyParameters'] + EXTRA + ['VerifOptdump', 'LongLine', 'TooManyParameters', 'VerifOptdump', 'NoSuchRule', 'Other']
TYPES = ['text', 'xcode', 'html', 'json', 'xml', 'pmd', 'verif-events']
BOOLS = [('enable-global-analysis', 'global'), ('enable-clang-static-analyzer', 'checker'), ('allow-duplicated-violations', 'dup')]
DEF = {'maxP1': 0, 'maxP2': 10, 'maxP3': 20, 'reportType': 'text', 'output': '-', 'global': 0, 'checker': 0, 'dup': 0}
# one line longer than each odd length from 21 to 199, one function with each number of parameters up to 14
LENS = list(range(21, 200, 2))
SRC = ''.join('//' + 'x' * (n - 2) + '\n' for n in LENS) + ''.join(
    'void f%d(%s) {}\n' % (n, ',\n'.join('int a%d' % k for k in range(n))) for n in range(1, 15))


def setup():
    global PFX
    # one prefix for all; the installation-wide file differs per case, so each case links its own bin and etc
    PFX = ocl.Prefix('c06', rules=('LongLineRule', 'TooManyParametersRule'), reporters='all', plugins=('optdump', 'events'))


def plan(tier, seed):
    for i in range(1200 if tier == 'quick' else 50000):
        yield [seed, i]


def scalar(r, s):
    """one YAML spelling of a string"""
    ok = re.fullmatch(r'[A-Za-z0-9_./][A-Za-z0-9_./-]*', s) and s.lower() not in ('null', 'true', 'false')
    k = r.random()
    if ok and k < 0.5:
        return s
    if '\n' not in s and '\t' not in s and k < 0.75:
        return "'%s'" % s.replace("'", "''")
    e = ''
    for c in s:
        if c in '"\\':
            e += '\\' + c
        elif c == '\n':
            e += '\\n'
        elif c == '\t':
            e += '\\t'
        elif ord(c) > 126 and r.random() < 0.5:
            e += '\\U%08x' % ord(c)
        elif c.isalpha() and ord(c) < 127 and r.random() < 0.05:
            e += '\\x%02x' % ord(c)
        else:
            e += c
    return '"%s"' % e


def comment(r):
    return r.choice(['', '', '', ' # note', '   '])


def yaml_doc(r, st):
    parts = []
    for k, v in st.items():
        if k in ('rule-paths', 'rules', 'disable-rules'):
            if r.random() < 0.3 and v:
                t = '%s: [%s]\n' % (k, ', '.join(scalar(r, x) for x in v))
            else:
                ind = ' ' * r.choice([0, 2, 4])
                t = '%s:%s\n' % (k, comment(r)) + ''.join('%s- %s%s\n' % (ind, scalar(r, x), comment(r)) for x in v)
        elif k == 'rule-configurations':
            t = k + ':\n'
            for a, b in v:
                if r.random() < 0.3:
                    t += '  - {key: %s, value: %s}\n' % (scalar(r, a), scalar(r, b))
                elif r.random() < 0.5:
                    t += '  - key: %s%s\n    value: %s%s\n' % (scalar(r, a), comment(r), scalar(r, b), comment(r))
                else:
                    t += '  - value: %s\n    key: %s\n' % (scalar(r, b), scalar(r, a))
        elif isinstance(v, bool):
            t = '%s: %s%s\n' % (k, 'true' if v else 'false', comment(r))
        elif isinstance(v, int):
            t = '%s: %s%s\n' % (k, r.choice([str(v), str(v), "'%d'" % v, '"%d"' % v]), comment(r))
        else:
            t = '%s: %s%s\n' % (k, scalar(r, v), comment(r))
        parts.append(t)
    r.shuffle(parts)
    if r.random() < 0.2:
        parts.insert(r.randrange(len(parts) + 1), '# a comment\n')
    if r.random() < 0.2:
        parts.insert(r.randrange(len(parts) + 1), '\n')
    s = ''.join(parts)
    if r.random() < 0.2:
        s = '---\n' + s
    if r.random() < 0.1:
        s = s + '...\n'
    if r.random() < 0.15:
        s = s.replace('\n', '\r\n')
    if r.random() < 0.1 and s.endswith('\n') and not s.endswith('...\n'):
        s = s[:-1].rstrip('\r')
    return s


KEYS = ['LONG_LINE', 'TOO_MANY_PARAMETERS', 'NCSS_METHOD', 'MY_KEY', 'key with space', 'x', 'Long_Line', 'k\u00e9y', 'A.B/C', 'q:"']


def value(r, key):
    if key in ('LONG_LINE', 'TOO_MANY_PARAMETERS'):
        n = r.choice([0, 1, 2, 3, 5, 8, 12, 13, 14, 20, 21, 22, 50, 99, 100, 101, 144, 150, 1000, 100000])
        return r.choice(['%d'] * 8 + ['0%d', '00%d', '+%d', ' %d', '%d ', '%d.9', '%dx', '%de1', '0x%d', 'x%d']) % n
    return r.choice(['', '1', '17', '-4', '3.25', 'some text', 'a b  c', "it's", 'say "hi"', 'back\\slash', '\u00e9\u4e2d', '#hash', 'a: b', '[x]', '{y}', '- z',
                     '%d', '0', '007', '010', '0x1f', '1e3', '2147483647', '-2147483648', 'true', '~', 'null', '@at', '`tick', '&amp', '*star', '!bang', '|', '>', 'x' * 300, '12abc', '  lead', 'trail  '])


def number(v):
    """the whole number a value starts with, in decimal; 0 if it starts with none"""
    m = re.match(r'\s*[+-]?\d+', v)
    return int(m.group()) if m else 0


def settings(r, d, cwd, cli, nice):
    st = {}
    p = r.choice([0.15, 0.4, 0.8])
    if r.random() < p:
        st['output'] = r.choice(['out1', 'sub/out2', d + '/o3', 'out 4', './o5.txt', '../o6', d + '/work/sub/o7', '-'] + (['o\u00e9', "it's"] if not cli else []))
    if r.random() < p:
        st['report-type'] = r.choice(TYPES)
    for k in (1, 2, 3):
        if r.random() < p:
            st['max-priority-%d' % k] = r.choice([0, 1, 2, 5, 10, 11, 20, 99, 1000000, -1])
    for k, _ in BOOLS:
        if r.random() < p and not (k == 'enable-clang-static-analyzer' and r.random() < 0.5):
            st[k] = r.random() < 0.5
    if r.random() < p * 0.6:
        st['rule-paths'] = [r.choice(nice) for _ in range(r.randrange(1, 4))]
    if r.random() < p:
        ks = [r.choice(KEYS) for _ in range(r.randrange(1, 5))]
        st['rule-configurations'] = [(k, value(r, k)) for k in ks]
    if r.random() < p * 0.5:
        st['disable-rules'] = [r.choice(NAMES) for _ in range(r.choice([1, 1, 2, 3]))]
    if r.random() < p * 0.4:
        st['rules'] = [r.choice(NAMES) for _ in range(r.choice([1, 2, 2, 3, 5]))]
    return st


def enabled(layers):
    """name -> is it enabled by the accumulated selections of the layers"""
    on, off = set(), set()
    for st in layers:
        for n in st.get('rules', []):
            on.add(n)
            off.discard(n)
        for n in st.get('disable-rules', []):
            off.add(n)
            on.discard(n)
    return lambda n: n not in off and (not on or n in on)


def case(spec):
    seed, i = spec
    r = check.rng_of('C06', seed, i)
    o = check.Outcome()
    d = ocl.mkd('c06-%d-%s' % (os.getpid(), check.h(spec)))
    try:
        home, cwd, pd = d + '/home', d + '/work', d + '/inst'
        for x in (home, cwd, cwd + '/sub', pd + '/bin', pd + '/etc'):
            os.makedirs(x)
        os.symlink(PFX.dir + '/lib', pd + '/lib')
        os.symlink(ocl.OCLINT, pd + '/bin/oclint')
        nice = []                      # rule directories: each holds the recorder and one more rule
        for k, e in enumerate(EXTRA):
            rel = ['r%d' % k, 'rules %d' % k, 'sub/r%d' % k][k % 3]
            q = cwd + '/' + rel
            os.makedirs(q)
            os.symlink(ocl.BLD + '/plugins/optdump/liboptdump.so', q + '/liboptdump.so')
            os.symlink(ocl.BLD + '/lib/oclint/rules/lib%sRule.so' % e, q + '/lib%sRule.so' % e)
            nice.append((rel if r.random() < 0.5 else q, e))
        open(cwd + '/.hidden', 'w').write('')
        by = dict(nice)
        cands = [x for x, _ in nice] + [pd + '/lib/oclint/rules']
        by[cands[-1]] = None
        same = r.random() < 0.08       # started in the home directory
        if same:
            home = cwd
        order = [pd + '/etc/oclint', home + '/.oclint', cwd + '/.oclint']
        layers, files = [], {}
        nohome = r.random() < 0.1
        for k, path in enumerate(order):
            if same and k == 1:
                layers.append({})
                continue
            kind = r.random()
            st = {}
            if kind < 0.2:
                pass
            elif kind < 0.3:
                body = r.choice(['', '\n', '   \n\t\n', '\r\n', '# only a comment\n', '---\n', ' ', '\n\n# x\n\n', '{}\n'])
                files[path] = body
            elif kind < 0.34:
                os.makedirs(path)
            else:
                st = settings(r, d, cwd, False, cands)
                files[path] = yaml_doc(r, st)
            layers.append({} if nohome and k == 1 else st)
        if same:
            layers[1] = {}
        for p, b in files.items():
            open(p, 'w', newline='').write(b)
        cli = settings(r, d, cwd, True, cands)
        if not enabled(layers + [cli])('VerifOptdump'):  # it has to run
            cli['rules'] = cli.get('rules', []) + ['VerifOptdump']
            if 'disable-rules' in cli:
                cli['disable-rules'] = [x for x in cli['disable-rules'] if x != 'VerifOptdump']
        opts = []
        for k, v in cli.items():
            if k == 'rule-paths':
                opts += [[r.choice(['-R', '-R=', '-R ', '--R '])] + [x] for x in v]
            elif k in ('rules', 'disable-rules'):
                opts += [['-' + ('rule' if k == 'rules' else 'disable-rule') + r.choice([' ', '=']), x] for x in v]
            elif k == 'rule-configurations':
                v[:] = [(a, b) for a, b in v if '=' not in a + b]
                opts += [['-rc ', '%s=%s' % x] for x in v]
            elif isinstance(v, bool):
                opts.append([r.choice(['-', '--']) + k + ('' if v and r.random() < 0.7 else '=%s' % ('true' if v else 'false')), None])
            elif k == 'output':
                opts.append(['-o ', v])
            else:
                opts.append(['-%s%s' % (k, '=' if r.random() < 0.5 or str(v).startswith('-') else ' '), str(v)])
        # the order within one list-valued option matters, that among different options does not
        grp = {}
        for op in opts:
            grp.setdefault(op[0].strip(' =-'), []).append(op)
        names = [op[0].strip(' =-') for op in opts]
        r.shuffle(names)
        args = []
        for nme in names:
            op = grp[nme].pop(0)
            if op[1] is None:
                args.append(op[0])
            elif op[0].endswith(' '):
                args += [op[0].strip(), op[1]]
            elif op[0] == '-R=':
                args.append('-R' + op[1])
            else:
                args.append(op[0] + op[1])
        layers.append(cli)
        # what the documentation says
        eff = dict(DEF)
        m = {'output': 'output', 'report-type': 'reportType', 'max-priority-1': 'maxP1', 'max-priority-2': 'maxP2', 'max-priority-3': 'maxP3'}
        m.update(dict(BOOLS))
        rc, paths = {}, []
        for st in layers:
            for k, v in st.items():
                if k in m:
                    eff[m[k]] = int(v) if isinstance(v, bool) else v
                elif k == 'rule-configurations':
                    for a, b in v:
                        rc[a] = b
        for st in [layers[3]] + layers[:3]:
            paths += st.get('rule-paths', [])
        if not paths:
            paths = [None]
        env = {'HOME': home, 'VERIF_OPTDUMP': d + '/dump', 'VERIF_OPTIONS': ','.join(KEYS)}
        if nohome and not same:
            env['HOME'] = r.choice(['', d + '/none'])
        open(cwd + '/a.c', 'w').write(SRC)
        how = r.random()
        P = type('P', (), {})
        P.bin = pd + '/bin/oclint'
        if how < 0.2:
            P.bin = '../inst/bin/oclint'
        elif how < 0.4:
            P.bin = 'oclint'
            env['PATH'] = '/usr/bin:/bin:' + pd + '/bin'
        dash = r.random() < 0.5
        allargs = (args + ['a.c'] if dash else ['a.c'] + args) + ['-list-enabled-rules', '--', '-x', 'c']
        q = run_in(P, allargs, cwd, env)
        desc = 'args %r files %r' % (args, {p.replace(d, ''): b for p, b in files.items()})
        if q.crashed:
            o.bad('crash', q.crash_text())
            o.files['stderr'] = q.err
            return o
        try:
            dump = json.loads(open(d + '/dump', 'rb').read().decode('latin-1'))['options']
        except (OSError, ValueError):
            o.bad('no-dump', 'the program did not run: status %d %s; %s' % (q.rc, q.err.decode('utf-8', 'replace')[-300:], desc))
            return o
        u = lambda s: s.encode('latin-1').decode('utf-8', 'replace')
        for k in ('maxP1', 'maxP2', 'maxP3', 'global', 'checker', 'dup'):
            o.need(dump[k] == eff[k], 'value-' + k, lambda: '%s is %s, most specific source says %s; %s' % (k, dump[k], eff[k], desc))
        o.need(u(dump['reportType']) == eff['reportType'], 'value-type', lambda: 'report type %r instead of %r; %s' % (dump['reportType'], eff['reportType'], desc))
        has = eff['output'] != '-'
        target = None
        if o.need(bool(dump['hasOutput']) == has, 'value-output', lambda: 'has output %s; %s' % (dump['hasOutput'], desc)) and has:
            target = os.path.join(cwd, eff['output'])
            o.need(os.path.normpath(u(dump['output'])) == os.path.normpath(target), 'value-output',
                   lambda: 'output %r instead of %r; %s' % (u(dump['output']), target, desc))
        for k in KEYS:
            g = dump['rc'].get(k)
            g = dump['rc'].get(k.encode().decode('latin-1'), g)
            if k not in rc:
                o.need(g is None, 'rc', lambda: 'rule configuration %r is %r although nothing sets it; %s' % (k, g, desc))
            else:
                v = rc[k]
                o.need(g is not None and u(g[0]) == v and g[1] == number(v), 'rc',
                       lambda: 'rule configuration %r is %r instead of %r; %s' % (k, g, v, desc))
        # the rules loaded, in order of the rule paths
        lm = re.search(rb'Enabled rules:\n((?:- .*\n)*)\n', q.out)
        ls = [x[2:].decode() for x in lm.group(1).splitlines()] if lm else []
        want, seen, keep = [], set(), enabled(layers)
        for p in paths:
            for e in (['VerifOptdump', 'LongLine', 'TooManyParameters'] if p is None or by[p] is None else ['VerifOptdump', by[p]]):
                if e not in seen and keep(e):
                    seen.add(e)
                    want.append(e)
        pos = {}
        for k, p in enumerate(paths):
            for e in (['VerifOptdump', 'LongLine', 'TooManyParameters'] if p is None or by[p] is None else ['VerifOptdump', by[p]]):
                pos.setdefault(e, k)
        if o.need(sorted(ls) == sorted(want), 'rule-paths', 
                  lambda: 'enabled are %s, the rule paths %s and the selections make it %s; %s' % (ls, paths, want, desc)):
            order_ok = [pos[e] for e in ls] == sorted(pos[e] for e in ls)
            o.need(order_ok, 'rule-paths', lambda: 'loaded in the order %s from %s; %s' % (ls, paths, desc))
        # the report is where and what it should be
        doc = q.out[lm.end():] if lm else q.out
        if has and target:
            try:
                doc = open(target, 'rb').read()
            except OSError:
                o.bad('report-place', 'no report at %s, status %d %s; %s' % (target, q.rc, q.err.decode('utf-8', 'replace')[-200:], desc))
                doc = None
        if doc is not None:
            ty = kind_of(doc)
            o.need(ty == eff['reportType'], 'report-type', lambda: 'the report is %s instead of %s; %s' % (ty, eff['reportType'], desc))
            if 'LongLine' in want and 'LongLine' in ls:
                lim = number(rc.get('LONG_LINE', '100'))
                lines = SRC.split('\n')
                e1 = sum(1 for l in lines if len(l) > lim)
                g1 = len(re.findall(rb'[^a-z]long line[^a-z]', doc))
                o.need(g1 == e1, 'threshold', lambda: '%d long lines reported, with limit %d there are %d; %s' % (g1, lim, e1, desc))
                o.stats['thresholds applied'] += 1
            if 'TooManyParameters' in want and 'TooManyParameters' in ls:
                lim = number(rc.get('TOO_MANY_PARAMETERS', '10'))
                e2 = sum(1 for n in range(1, 15) if n > lim)
                g2 = len(re.findall(rb'[^a-z]too many parameters[^a-z]', doc))
                o.need(g2 == e2, 'threshold', lambda: '%d too many parameters, with limit %d there are %d; %s' % (g2, lim, e2, desc))
                o.stats['thresholds applied'] += 1
        o.stats['started ' + ('relative' if how < 0.2 else 'by PATH' if how < 0.4 else 'absolute')] += 1
        for n, st in zip(('etc', 'home', 'project', 'cli'), layers):
            for k in st:
                o.stats['%s sets %s' % (n, k)] += 1
        conf = sum(1 for k in m if sum(k in st for st in layers) > 1)
        o.stats['settings stated more than once'] += conf
        o.sig.append(tuple(tuple(sorted(st)) for st in layers))
        if o.viol:
            o.files['desc'] = desc
        o.sample = {'layers': [sorted(st) for st in layers], 'effective': eff, 'rc': len(rc)}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return o


def kind_of(doc):
    t = doc.strip()
    if t.startswith(b'{"verif":1'):
        return 'verif-events'
    if t.startswith(b'{'):
        return 'json'
    if t.startswith(b'<?xml'):
        return 'pmd' if b'<pmd' in t[:200] else 'xml'
    if t[:15].lower() == b'<!doctype html>':
        return 'html'
    return 'text' if b'OCLint Report' in t else 'xcode'


def run_in(P, args, cwd, env):
    q = ocl.run(P, args, cwd, env)
    return ocl.run(P, args, cwd, env) if q.crashed else q


if __name__ == '__main__':
    check.main('C06', case, plan, setup=setup,
               rule='distinct combinations of settings stated by the three configuration files and the command line',
               assumptions=['rule paths accumulate with those of the command line first',
                            'rule configurations on the command line have no "=" in key or value'])
