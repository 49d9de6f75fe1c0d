"""C21: no crash. Degenerate, nested, mutated and generated programs through all rules and reporters, under sanitizers."""
import os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, cross, gen, hostile, ocl, rulecheck as rc

REPORTERS = ['text', 'html', 'json', 'xml', 'pmd', 'xcode', 'verif-events', 'verif-events']
KEYS = ['CYCLOMATIC_COMPLEXITY', 'LONG_CLASS', 'LONG_LINE', 'LONG_METHOD', 'LONG_VARIABLE_NAME', 'SHORT_VARIABLE_NAME', 'MINIMUM_CASES_IN_SWITCH', 'NPATH_COMPLEXITY',
        'NCSS_METHOD', 'NESTED_BLOCK_DEPTH', 'TOO_MANY_FIELDS', 'TOO_MANY_METHODS', 'TOO_MANY_PARAMETERS', 'MAXIMUM_IF_LENGTH']
MODES = ['c', 'cxx', 'objc', 'cxx23', 'objcxx', 'coro', 'ms', 'arc', 'c89', 'c2x', 'cuda', 'cudadev', 'seh', 'omp', 'ompxx', 'clc', 'hip']

WRAP = ['{ %s }', 'if (a) { %s }', 'if (a) ; else { %s }', 'while (a) { %s break; }', 'do { %s } while (0);', 'for (int w@ = 0; w@ < 2; w@++) { %s }',
        'switch (a) { case 1: { %s } default: ; }', 'switch (a) default: { %s }', 'w@: { %s }', '{ if (a) ; %s }', 'if (a) { { %s } }', 'for (;;) { if (b) break; %s }']
WRAP_X = ['try { %s } catch (...) { }', 'try { } catch (int) { %s }', '[&] { int a = 1, b = 2, *p = &a; { %s } return a + b + *p; }();', 'if constexpr (true) { %s }',
          'struct W@ { int w(int a, int b, int *p) { %s return a; } };', '[](auto a, auto b, int *p) { { %s } return a; }(1, 2, nullptr);', 'for (auto w@ : arrg) { %s }',
          'if (int w@ = a; w@) { %s }']
WRAP_O = ['@try { %s } @catch (id w@) { } @finally { }', '@try { } @finally { { int a = 1; { (void)a; } } }', '@autoreleasepool { %s }', '@synchronized (gself) { %s }',
          '^(int a, int b, int *p) { { %s } return a; }(1, 2, 0);', 'for (id w@ in gself) { %s }']
TOKEN = re.compile(r'[A-Za-z_]\w*|\d[\w.]*|"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|\s+|->|<<|>>|&&|\|\||[=!<>+\-*/%&|^]=|\+\+|--|::|\.\.\.|.', re.S)


def compose(rng, mode, used):
    fl, ext, _, top, st = hostile.MODES[mode]
    n = [0]

    def ins(s):
        n[0] += 1
        used.append((mode, s[:40]))
        return hostile.inst(s, n[0])

    def stmt(depth):
        s = ins(rng.choice(st))
        while depth > 0 and rng.random() < 0.5:
            ws = WRAP + (WRAP_X * 2 if mode in ('cxx', 'cxx23', 'coro', 'objcxx', 'ompxx') else []) + (WRAP_O if mode in ('objc', 'objcxx') else [])
            n[0] += 1
            if rng.random() < 0.3:
                s += ' ' + ins(rng.choice(st))
            w = hostile.inst(rng.choice(ws), n[0])
            s = w.replace('%s', s)
            depth -= 1
        return s
    parts = []
    for _ in range(rng.choice([1, 3, 6, 12])):
        if top and (not st or rng.random() < 0.5):
            parts.append(ins(rng.choice(top)))
        elif st:
            n[0] += 1
            k = n[0]
            body = '\n'.join(stmt(rng.choice([0, 1, 3])) for _ in range(rng.choice([0, 1, 2])))
            head = 'int fn%d(int a, int b, int *p)' % k
            if mode in ('cxx', 'cxx23', 'objcxx') and rng.random() < 0.4:
                head = rng.choice(['template <class T> int fn%d(T a, int b, int *p)', 'static inline int fn%d(int a, int b, int *p) noexcept', 'auto fn%d(int a, auto b, int *p) -> int',
                                   'struct S%d { static int f(int a, int b, int *p); }; int S%d::f(int a, int b, int *p)', 'auto fn%d = [](int a, int b, int *p) -> int'])
                head = head.replace('%d', str(k))
            parts.append('%s {\n%s\nreturn a; }%s' % (head, body, ';' if '= [' in head else ''))
    if rng.random() < 0.3:
        parts = [rng.choice(['', '\n', '\t', '  ']) + p + rng.choice(['', ' //!OCLINT', ' // x', ' /* \n */']) for p in parts]
    sep = rng.choice(['\n', '\n\n', '\n', '\r\n'])
    return sep.join(parts) + rng.choice(['', sep])


def mutate(rng, text):
    ts = TOKEN.findall(text)
    if not ts:
        return text
    for _ in range(rng.choice([1, 1, 2, 5, 20])):
        i, j = rng.randrange(len(ts)), rng.randrange(len(ts))
        k = rng.random()
        if k < 0.3:
            ts[i] = ''
        elif k < 0.5:
            ts[i] += ' ' + ts[i]
        elif k < 0.7:
            ts[i], ts[j] = ts[j], ts[i]
        elif k < 0.85:
            ts[i] = ts[j]
        elif k < 0.95:
            ts[i] = rng.choice(['{', '}', '(', ')', ';', ',', 'int', 'class', 'template', '@', '::', '0', '"', '=', 'return', '#', 'auto', '~', 'operator', '<', '...'])
        else:
            ts = ts[:i]
            if not ts:
                return ''
    return ''.join(ts)


def deep(rng, mode):
    n = rng.choice([50, 120, 240])
    big = rng.choice([300, 1000, 3000])
    k = rng.choice(['sum', 'elseif', 'paren', 'blocks', 'ifs', 'cond', 'cases', 'not', 'decls', 'args', 'comma', 'and', 'line', 'funcs', 'calls', 'labels', 'string', 'class', 'minus'])
    f = 'int deep(int a) {\n%s\nreturn a; }\n'
    if k == 'sum':
        return f % ('a = ' + ' + '.join(['a'] * big) + ';')
    if k == 'elseif':
        return f % ''.join('if (a == %d) { } else ' % i for i in range(n)) .__add__(';')
    if k == 'paren':
        return f % ('a = ' + '(' * n + 'a' + ')' * n + ';')
    if k == 'blocks':
        return f % ('{' * n + '}' * n)
    if k == 'ifs':
        return f % ('if (a) ' * n + ';')
    if k == 'cond':
        return f % ('a = ' + 'a ? a : ' * n + 'a;')
    if k == 'cases':
        return f % ('switch (a) {' + ''.join('case %d: ' % i for i in range(big)) + ';}')
    if k == 'not':
        return f % ('a = ' + '!' * n + 'a; a = ' + '~' * n + 'a;')
    if k == 'decls':
        return f % ('int ' + ', '.join('v%d = %d' % (i, i) for i in range(big)) + ';')
    if k == 'args':
        return 'int deep(%s) { return 0; }\n' % ', '.join('int p%d' % i for i in range(big))
    if k == 'comma':
        return f % ('a++, ' * big + 'a;')
    if k == 'and':
        return f % ('if (' + ' && '.join(['a'] * big) + ') { } else { }' + 'if (' + ' || '.join(['a & 1'] * n) + ') ;')
    if k == 'line':
        return f % ('/*' + 'x' * 100000 + '*/')
    if k == 'funcs':
        return ''.join('int q%d(int a) { if (a) {} return a; }' % i for i in range(min(big, 1000)))
    if k == 'calls':
        return f % ('a = ' + 'deep(' * n + 'a' + ')' * n + ';')
    if k == 'labels':
        return f % (''.join('l%d: ' % i for i in range(n)) + ';')
    if k == 'string':
        return f % ('const char *s = ' + ' '.join('"%d"' % i for i in range(big)) + ';')
    if k == 'class':
        return 'struct D {' + ''.join('int f%d;' % i for i in range(big)) + '};\n' + ''.join('struct N%d {' % i for i in range(60)) + '} ' .join(['int z;'] + ['n%d;' % i for i in range(60)]) + ';\n'
    return f % ('a = ' + '- ' * n + 'a; ' + 'while (a) ' * n + ';')


def raw(rng):
    b = rng.choice([b'', b'\n', b'\0', b'\xff\xfe', b'\xef\xbb\xbfint a;\n', b'int a;', b'//', b'/*', b'#', b'"', b'\\', b'\r', b'int a; // \\\n//!OCLINT\\', b'#line 0\n', b'#line 2147483647 "x"\nint f(int a) { if (a) {} }',
                    b'int f(int a) { if (a) {} return "\xc3\xa9\xf0\x9f\x98\x80\xff"[a]; } //!OCLINT', b'#include "m"\n', b'int f(void) { return 0; }\0int g(int a) { if (a) {} }', b'#pragma once\nint x;',
                    b'int \xc3\xa9t\xc3\xa9(int \xc3\xa0) { if (\xc3\xa0) {} return 0; }\n', b'//!OCLINT' * 5000, b'\n' * 20000, b'int f(int a) {' + b' if (a) {}' * 5000 + b' }',
                    b'#include __FILE__\n', b'#error a\n', b'??=define X\n', b'int f(int a)\r{\rif (a) {}\rreturn 0;\r}\r', b'\x0c\x0bint x;\x1a', b'%:define Q <% %>\nint f(int a) <% if (a) Q return a; %>',
                    bytes(rng.randrange(256) for _ in range(rng.choice([1, 30, 500])))])
    return b


def frontend_crashes(d, f, flags):
    try:
        p = subprocess.run([os.path.join(ocl.BLD, 'bin/refdiag'), d, f] + flags, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=15)
        return p.returncode < 0
    except subprocess.TimeoutExpired:  # hangs
        return True


def case(spec):
    o = check.Outcome()
    seed, mode, how = spec['seed'], spec['mode'], spec['how']
    rng = check.rng_of(seed, mode, how, 'c21')
    used = []
    d = ocl.mkd('c21-' + check.h(seed, mode, how))
    try:
        if how == 'gen':
            lang = rng.choice(['c', 'cxx', 'objc', 'objcxx', 'c89'])
            main, pre = gen.source(rng, lang, size=rng.choice([1, 3, 6]))
            flags, ext = list(gen.FLAGS[lang]), gen.EXT[lang]
            if pre:
                open(d + '/pre.h', 'w').write(pre)
            main = mutate(rng, main).encode('utf-8', 'surrogateescape')
            mode = 'gen ' + lang
        elif how == 'cross':
            lang = rng.choice(['c', 'cxx', 'cxx', 'objc', 'objcxx', 'c89'])
            main, pre, k = cross.source(rng, lang, d, rng.choice([10, 40, 80]))
            flags, ext = list(gen.FLAGS[lang]), gen.EXT[lang]
            o.stats['crossed functions'] += k
            main = main.encode()
            mode = 'cross ' + lang
        else:
            flags, ext = list(hostile.MODES[mode][0]), hostile.MODES[mode][1]
            body = compose(rng, mode, used) if how != 'deep' else deep(rng, mode)
            if how == 'mut':
                body = mutate(rng, body)
            pre = hostile.prelude(mode)
            if mode in ('objc', 'objcxx'):
                pre += '\nextern NSArray *gself;\n'
            main = body.encode('utf-8', 'surrogateescape')
            if how == 'raw':
                main = raw(rng)
            elif rng.random() < 0.3 and '\r' not in body:
                main = pre.encode() + b'\n' + main
            else:
                open(d + '/pre.h', 'w').write(pre)
                main = b'#include "pre.h"\n' + main
        name = rng.choice(['m', 'm', 'm', 'm', 'a b', 'q"&<>\'', '\xe9', 'm.x', '%s']) + ext
        f = name.encode('utf-8', 'surrogateescape').decode('utf-8', 'surrogateescape')
        open(os.path.join(d, f), 'wb').write(main)
        o.files = {'m' + ext: main, 'pre.h': pre or ''}
        rep = rng.choice(REPORTERS)
        opts = ['-report-type', rep]
        for k in KEYS:
            if rng.random() < 0.25:
                opts += ['-rc', '%s=%d' % (k, rng.choice([-1, 0, 0, 1, 2, 5, 1000000]))]
        if rng.random() < 0.1:
            opts.append('-enable-global-analysis')
        if rng.random() < 0.3:
            opts.append('-allow-duplicated-violations')
        if how != 'deep' and rng.random() < 0.04:
            opts.append('-enable-clang-static-analyzer')
        warn = rng.choice([['-w'], [], ['-Wall', '-Wextra'], ['-Weverything'], ['-Werror']])
        flags += warn
        cmd = opts + [os.path.join(d, f), '--'] + flags
        r = ocl.run(PFX(), cmd, d, env={'VERIF_QUERY': 'vewb'}, timeout=25)
        if r.timeout and frontend_crashes(d, f, flags):
            o.discard = 'the compiler hangs by itself'
            return o
        if r.crashed:
            r = ocl.run(PFX(), cmd, d, env={'VERIF_QUERY': 'vewb'}, timeout=100)
        o.files['command'] = ' '.join(r.cmd)
        o.files['stderr'] = r.err
        what = '%s %s' % (how, mode)
        if r.crashed:
            fr = r.crash_frames()
            if not any('.build/src/oclint' in l for l in r.err.decode('latin-1').split('\n') if re.match(r'\s*#[0-5] ', l)) and frontend_crashes(d, f, flags):
                o.discard = 'the compiler crashes by itself'
                return o
            o.bad('crash:' + (fr[0].split('(')[0][-60:] if fr else what), 'oclint crashed on a %s source: %s\n%s\n%s' %
                  (what, r.crash_text(), ' < '.join(fr), main[-1200:].decode('latin-1')))
            return o
        o.stats['status %d, %s' % (r.rc, how)] += 1
        if r.rc not in (0, 5, 6):
            o.bad('status:%d' % r.rc, 'status %d for a %s source: %s' % (r.rc, what, r.err[-300:]))
            return o
        if len(r.out) < 20 and rep != 'xcode':
            o.bad('no-report:' + rep, 'no %s report was written (status %d)' % (rep, r.rc))
            return o
        o.stats['reporter ' + rep] += 1
        if rep == 'verif-events':
            ev = ocl.events(r.out)
            if ev is None:
                o.bad('no-report', 'the report is cut off')
                return o
            q = dict(ev['q'])
            if (r.rc == 6) != bool(q['e']):
                o.bad('errors', 'status %d with %d compile errors in the results' % (r.rc, len(q['e'])))
            if how == 'valid' and q['e'] and warn != ['-Werror']:
                o.stats['rejected: ' + q['e'][0][9][:50]] += 1
            for v in q['v']:
                o.stats['rule ' + v[0]] += 1
        if r.rc != 6:
            o.sig = [('construct', m, s) for m, s in used] or [(how, mode, seed)]
            o.stats['accepted ' + mode] += 1
        else:
            o.sig = [('rejected', how, mode, seed)]
        o.sample = {'kind': what, 'options': opts, 'status': r.rc, 'source_tail': main[-300:].decode('latin-1')}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return o


_pfx = None


def PFX():
    global _pfx
    if _pfx is None:
        _pfx = ocl.Prefix('c21')
    return _pfx


def plan(tier, seed):
    n = 2700 if tier == 'quick' else 60000
    for i in range(n):
        m = MODES[i % 5] if i % 3 else MODES[(i // 3) % len(MODES)]
        how = 'valid' if i % 10 < 6 else ['mut', 'gen', 'deep', 'raw' if i % 4 else 'mut'][i % 10 - 6]
        yield {'seed': '%d-%d' % (seed, i), 'mode': m, 'how': how}
        if i % 8 == 0:
            yield {'seed': '%d-%d' % (seed, i), 'mode': m, 'how': 'cross'}


if __name__ == '__main__':
    check.main('C21', case, plan, setup=PFX, targets=('oclint', 'rules', 'reporters', 'plugins', 'refdiag'), budget=(300, 3000),
               rule='distinct (language mode, construct) accepted by the compiler and analysed with every rule under the sanitizers without a '
                    'report from them, plus distinct rejected sources survived')
