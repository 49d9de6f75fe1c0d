"""C11: the compiler's diagnostics reach the report faithfully.

Sources full of diagnostics (a catalogue of errors and warnings placed in the source, in headers, in system headers and in
macros; mutated programs) under many warning settings. What the results hold is compared, entry by entry, with what the
same compiler library says when it is used without oclint; likewise for the findings of the static analyzer."""
import json, os, random, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, gen, hostile, ocl
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import C21

PFX = None
REF = os.path.join(ocl.BLD, 'bin', 'refdiag')


def setup():
    global PFX
    # a few rules that look at everything: evaluating them must add nothing to the diagnostics
    PFX = ocl.Prefix('c11', rules=('ConstantConditionalOperatorRule', 'ConstantIfExpressionRule', 'DeadCodeRule', 'UnusedLocalVariableRule',
                                   'MissingBreakInSwitchStatementRule', 'LongLineRule'), reporters=(), plugins=('events',))


# one per line; @ is a number unique in the program; %s none
WARN = '''
int wu@(int a) { int unused@; return a; }
int wn@(int a) { a; return a == a; }
void wr@(void) { int x@; x@ = x@; }
int wnr@(int a) { if (a) return 1; }
int ws@(int a, unsigned b) { return a < b; }
char wc@(void) { return 300; }
int wp@(int a) { if (a = 1) return 2; return (a == 1) ? 2 : 3; }
int wpa@(int a) { return a & 1 == 0; }
int wz@(int a) { return a / 0; }
int wsh@(int a) { return a << 40; }
void wf@(const char *s) { __builtin_printf("%d %s\\n", s, 1); }
#warning "text @ here"
int wem@(int a) { if (a); return 1; }
int wds@(int a) { while (a); { a = 1; } return a; }
int wt@(void) { return 'ab'; }
int wsw@(int a) { switch (a) { case 1: a = 2; case 2: break; default: ; } return a; }
__attribute__((deprecated("old @"))) int dep@(int); int wd@(void) { return dep@(1); }
static int wuf@(void) { return 1; }
int wi@; extern int wi@; long long wl@ = 1.5;
unsigned char wo@ = -1; int wov@ = 2147483647 + 1;
int wco@(int a) { return a, 2; }
void wsz@(char *p) { __builtin_memset(p, 0, sizeof(p)); }
int wsh2@(int a) { { int a = 1; a++; } return a; }
int wlp@(int a) { for (;;) a++; return a; }
_Pragma("clang bogus@") int wpr@;
#pragma unknown_thing @
#pragma pack(push, 3@)
int wund@(void) { return wnowhere@ == 0 ? 1 : 2; } 
int wtab@ = 1;\t\tint wtab2@(int a) { int\tun@;\treturn a; }
int w\u00fcn@(int a) { int \u00fc@; return a; } /* \u00e9\u4e2d */ int wafter@(int q) { int z@; return q; }
int wtri@ = 1; // what??/
'''
CWARN = '''
int wimpl@(void) { char *p = 5; return *p; }
int wptr@(int *p) { char *q = p; return *q; }
wint@(void) { return 1; }
int wvoid@() { return 1; } int wcall@(void) { return wvoid@(1); }
'''
CXXWARN = '''
struct Wv@ { virtual void f(); int a, b; Wv@() : b(1), a(2) {} }; void del@(Wv@ *p) { delete p; }
struct Wo@ { virtual void f(int); }; struct Wo2@ : Wo@ { void f(int); virtual void g(); };
template <class T> int wtm@(T a) { int un@; T x = 1.5; return a == 1u; } int wtu@ = wtm@(1) + wtm@('c');
auto wla@ = [](int a) { int ul@; return a; };
int &wref@() { int a = 1; return a; }
[[nodiscard]] int wnd@(); void wnc@() { wnd@(); }
enum We@ { WA@, WB@ }; int wen@(We@ e) { switch (e) { case WA@: return 1; } return 0; }
void wthr@() noexcept { throw 1; }
'''
ERR = '''
int eu@(void) { return undeclared@; }
int es@(void) { return 1 }
int et@ = ;
unknown@_t ev@;
int er@; char er@;
#error "stop @"
int ea@(int a) { return ea@(a, 2); }
struct Inc@; struct Inc@ ei@;
int ebr@(void) { break; }
int egoto@(void) { goto nolabel@; }
int ecase@(int a) { switch (a) { case 1: case 1: ; } return 0; }
int earr@[-1];
_Static_assert(sizeof(int) == 5, "size @");
int edup@(int a, int a) { return 1; }
void ev2@(void) { return 1; }
#include "nosuch@.h"
#if 1 /
int eif@;
#endif
int estr@ = "abc@;
int ecur@(void) { if (1) { return 1; }
'''
CXXERR = '''
struct Ep@ { private: int a; }; int epr@(Ep@ p) { return p.a; }
struct Ea@ { virtual void f() = 0; }; Ea@ eab@;
template <class T> int etm@(T a) { return a.nothing; } int etu@ = etm@(1);
int ecv@(const int &a) { a = 1; return 0; }
class Eb@ : public nobase@ {};
int eov@(int); int eov@(char *); int eoc@ = eov@(nullptr, 1);
template <class T> struct Etd@ { Etd@<T *> x; int f() { return x.f(); } }; int etd@ = Etd@<int>().f();
static_assert(false, "no @");
'''
BUGS = '''
int bn@(int c) { int *p = 0; if (c) return *p; return 0; }
int bd@(int c) { if (c == 0) return 7 / c; return 1; }
int bu@(int c) { int x; if (c > 3) x = 1; return x; }
int bs@(int c) { int k = c; k = 3; return c; }
int ba@(int c) { int a[3] = {0, 1, 2}; if (c == 5) return a[c]; return 0; }
int *br@(void) { int x = 1; return &x; }
void *bm@(void) { int *p = __builtin_malloc(4); __builtin_free(p); return p; }
static int bh@(int *q) { return *q; } int bi@(int f) { int *z = 0; return f ? bh@(z) : 1; }
'''
LN = lambda s: [x for x in s.strip('\n').split('\n') if x.strip()]
WARN, CWARN, CXXWARN, ERR, CXXERR, BUGS = map(LN, (WARN, CWARN, CXXWARN, ERR, CXXERR, BUGS))
for j, l in enumerate(ERR):
    if l.startswith('#if 1 /'):
        ERR[j] = l + '\n' + ERR.pop(j + 1) + '\n' + ERR.pop(j + 1)
        break
FLAGS = ['-Wall', '-Wextra', '-Weverything', '-w', '-Werror', '-Werror=unused-variable', '-Wno-unused-variable', '-ferror-limit=2', '-ferror-limit=1', '-pedantic',
         '-pedantic-errors', '-Wfatal-errors', '-Wsystem-headers', '-Wno-error=return-type', '-Wno-everything', '-Wunused', '-Wshadow', '-Wconversion',
         '-Wno-deprecated-declarations', '-ftemplate-depth=20', '-fmacro-backtrace-limit=1', '-ftrigraphs', '-Wno-unknown-pragmas', '-Rpass=.*', '-Reverything',
         '-fdiagnostics-show-option', '-fno-diagnostics-show-option', '-fno-caret-diagnostics', '-Wbogus-option', '-fmessage-length=40', '-ftabstop=3',
         '-fdiagnostics-absolute-paths', '-Wundef', '-Wimplicit-fallthrough', '-Wno-sign-compare', '-Wunreachable-code', '-Wthread-safety', '-Wdocumentation']


def plan(tier, seed):
    for i in range(2500 if tier == 'quick' else 60000):
        yield [seed, i]


class Pool:
    def __init__(self, r, cxx, bugs, perr):
        self.r, self.cxx, self.n, self.perr = r, cxx, 0, perr
        self.w = WARN + (CXXWARN * 2 if cxx else CWARN)
        self.e = ERR + (CXXERR * 2 if cxx else [])
        self.bugs = bugs

    def one(self):
        r = self.r
        self.n += 1
        if self.bugs and r.random() < 0.5:
            s = r.choice(BUGS)
        elif r.random() < self.perr:
            s = r.choice(self.e)
        elif r.random() < 0.15:
            s = 'int fine@(int a) { return a; }'
        else:
            s = r.choice(self.w)
        return re.sub('@', '%d' % (self.n + self.base), s)
    base = 0


def build(r, d, cxx, bugs):
    """headers and sources; diagnostics in every kind of place"""
    pool = Pool(r, cxx, bugs, r.choice([0, 0, 0.1, 0.4]))
    dirs = {'q': d, 'inc': d + '/inc', 'sys': d + '/sys'}
    for x in dirs.values():
        os.makedirs(x, exist_ok=True)
    heads = []
    for k in range(r.choice([0, 1, 2, 3])):
        where = r.choice(['q', 'inc', 'inc', 'sys'])
        t = ['#pragma once' if r.random() < 0.7 else '#ifndef H%d\n#define H%d' % (k, k)]
        g = t[0].startswith('#ifndef')
        if heads and r.random() < 0.4:
            t.append('#include "%s"' % heads[-1][1])
        if where != 'sys' and r.random() < 0.1:
            t.append('#pragma GCC system_header' if r.random() < 0.5 else '#pragma clang system_header')
        for _ in range(r.randrange(0, 4)):
            t.append(pool.one())
        for m in range(r.randrange(0, 3)):
            t.append(r.choice(['#define HM%d_%d(x) int hm%d_##x(int a) { int u##x; return a == 0u; }', '#define HM%d_%d(x) int hm%d_##x(int a) { if (a = 1) return x; return 0; }',
                               '#define HM%d_%d(x) int hm%d_##x = undeclared_##x;' if pool.perr else '#define HM%d_%d(x) int hm%d_##x(void) { x; return 1 / 0; }',
                               '#define HM%d_%d(x) _Pragma("GCC warning \\"in macro\\"") int hm%d_##x;']) % (k, m, k * 10 + m))
        t.append('#endif' if g else '')
        name = 'h%d.h' % k
        open('%s/%s' % (dirs[where], name), 'w').write('\n'.join(t) + '\n')
        heads.append((where, name, k, len([x for x in t if x.startswith('#define HM')])))
    srcs = []
    ext = r.choice(['.cpp', '.cc', '.mm'] if cxx else ['.c', '.c', '.m'])
    for k in range(r.choice([1, 1, 2, 3])):
        pool.base = 1000 * (k + 1)
        t = []
        for _ in range(r.randrange(1, 7)):
            c = r.random()
            if c < 0.2 and heads:
                h = r.choice(heads)
                t.append('#include %s' % ('<%s>' if h[0] != 'q' and r.random() < 0.3 else '"%s"') % h[1])
                for m in range(h[3]):
                    if r.random() < 0.6:
                        pool.n += 1
                        t.append('HM%d_%d(%d)' % (h[2], m, pool.n + pool.base))
            elif c < 0.3:
                pool.n += 1
                n = pool.n + pool.base
                s = pool.one()
                if '\n' not in s and not s.startswith(('#', '_Pragma')) and '//' not in s:
                    t.append('#define LM%d %s' % (n, s))
                    if r.random() < 0.4:
                        t.append('#define LN%d LM%d' % (n, n))
                        t.append('LN%d' % n)
                    else:
                        t.append('  LM%d  ' % n)
                else:
                    t.append(s)
            elif c < 0.36:
                t.append(r.choice(['#line 77', '#line 500 "virtual.y"', '# 12 "gen.c"', '#line 3 "inc/h0.h"']))
            elif c < 0.42:
                t.append(r.choice(['#pragma clang diagnostic push\n#pragma clang diagnostic ignored "-Wunused-variable"', '#pragma clang diagnostic pop',
                                   '#pragma GCC diagnostic error "-Wunused-variable"', '#pragma clang diagnostic warning "-Weverything"',
                                   '#pragma message "hello"', '#pragma clang diagnostic error "-Wall"', '#pragma GCC error "by pragma"' if pool.perr else '']))
            else:
                t.append(r.choice(['', '', '  ', '\t']) + pool.one())
        sep = r.choice(['\n', '\n', '\n', '\r\n'])
        name = '%s/s%d%s' % (d, k, ext)
        if r.random() < 0.2:
            os.makedirs(d + '/my dir', exist_ok=True)
            name = '%s/my dir/s%d%s' % (d, k, ext)
        open(name, 'w', newline='').write(sep.join(t) + r.choice(['', sep, sep]))
        srcs.append(name)
    fl = ['-I' + d + '/inc', '-isystem', d + '/sys', '-I', d]
    return srcs, fl


def reference(d, f, flags, analyze=False):
    env = {'PATH': '/usr/bin:/bin', 'HOME': d, 'LANG': 'C', 'LC_ALL': 'C'}
    try:
        p = subprocess.run([REF] + (['-analyze'] if analyze else []) + [d] + flags + [f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           timeout=60, env=env, cwd=d)
    except subprocess.TimeoutExpired:
        return None
    if p.returncode:
        return None
    try:
        return json.loads(p.stdout[p.stdout.index(b'{"d":['):].decode('latin-1'))
    except ValueError:
        return None


def row(x):
    return (os.path.normpath(x[1]) if x[1] else '', x[2], x[3], x[4])


def uniq(l):
    return list(dict.fromkeys(l))


def case(spec):
    seed, i = spec
    r = check.rng_of('C11', seed, i)
    o = check.Outcome()
    d = ocl.mkd('c11-%d-%s' % (os.getpid(), check.h(spec)))
    try:
        how = r.choice(['cat'] * 7 + ['mut', 'mut', 'gen'])
        analyze = r.random() < 0.2
        flags = []
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            flags.append(r.choice(FLAGS))
        if how == 'cat':
            cxx = r.random() < 0.5
            srcs, fl = build(r, d, cxx, analyze)
            flags += fl
            if r.random() < 0.2:
                flags.append('-std=' + r.choice(['c++11', 'c++17', 'gnu++20'] if cxx else ['c89', 'c99', 'gnu11', 'c23']))
        elif how == 'gen':
            lang = r.choice(['c', 'cxx', 'objc', 'objcxx', 'c89'])
            main, pre = gen.source(r, lang, size=r.choice([1, 3]))
            flags = list(gen.FLAGS[lang]) + flags
            open(d + '/pre.h', 'w').write(pre or '')
            main = C21.mutate(r, main)
            srcs = [d + '/m' + gen.EXT[lang]]
            open(srcs[0], 'wb').write(main.encode('utf-8', 'surrogateescape'))
        else:
            mode = r.choice(['c', 'cxx', 'objc', 'cxx23', 'objcxx', 'c89', 'c2x'])
            body = C21.compose(r, mode, [])
            if r.random() < 0.8:
                body = C21.mutate(r, body)
            pre = hostile.prelude(mode)
            if mode in ('objc', 'objcxx'):
                pre += '\nextern NSArray *gself;\n'
            flags = list(hostile.MODES[mode][0]) + flags
            open(d + '/pre.h', 'w').write(pre)
            srcs = [d + '/m' + hostile.MODES[mode][1]]
            open(srcs[0], 'wb').write(b'#include "pre.h"\n' + body.encode('utf-8', 'surrogateescape'))
        dup = r.random() < 0.7
        args = ['-report-type', 'verif-events'] + (['-allow-duplicated-violations'] if dup else [])
        if analyze:
            args.append('-enable-clang-static-analyzer')
        if r.random() < 0.3:
            args.append('-enable-global-analysis')
        exp, bugs, faults = [], [], 0
        for f in srcs:
            ref = reference(d, f, flags)
            if ref is None:
                o.discard = 'the compiler crashes by itself'
                return o
            exp += ref['d']
            faults += ref['errors'] == 1
            if analyze:
                ref = reference(d, f, flags, True)
                if ref is None:
                    o.discard = 'the analyzer crashes by itself'
                    return o
                bugs += ref['d']
        q = ocl.run_retry(PFX, args + srcs + ['--'] + flags, d, timeout=60)
        for f in srcs:
            o.files[os.path.basename(f)] = open(f, 'rb').read()
        for dp, dn, fn in os.walk(d):
            for f in fn:
                if f.endswith('.h') and how == 'cat':
                    o.files[os.path.relpath(dp + '/' + f, d)] = open(dp + '/' + f, 'rb').read()
        desc = 'flags %r args %r sources %s' % (flags, args, [os.path.basename(f) for f in srcs])
        o.files['desc'] = desc
        if q.crashed:
            if how != 'cat':
                o.discard = 'crash: left to C21'
                return o
            o.bad('crash', q.crash_text() + '; ' + desc)
            o.files['stderr'] = q.err
            return o
        ev = ocl.events(q.out)
        if ev is None:
            o.bad('no-report', 'no report, status %d, %s; %s' % (q.rc, q.err.decode('utf-8', 'replace')[-300:], desc))
            return o
        qq = dict(ev['q'])
        got = {k: [(os.path.normpath(v[4]) if v[4] else '', v[5], v[6], v[9]) for v in qq[k]] for k in 'ewb'}
        want = {'e': [row(x) for x in exp if x[0] in ('error', 'fatal')], 'w': [row(x) for x in exp if x[0] == 'warning'],
                'b': [row(x) for x in bugs if x[0] == 'warning']}
        for k, n in (('e', 'errors'), ('w', 'warnings'), ('b', 'checker bugs')):
            x = want[k] if dup else uniq(want[k])
            g = got[k]
            if k == 'b':
                x, g = sorted(x), sorted(g)
            if g != x:
                j = next((j for j, (s, t) in enumerate(zip(g, x)) if s != t), min(len(g), len(x)))
                o.bad(n, '%d %s, the compiler says %d; number %d is %r, expected %r; %s' % (len(g), n, len(x), j, g[j:j + 1], x[j:j + 1], desc))
            o.stats[n] += len(x)
        o.need((q.rc == 6) == bool(want['e']), 'status', lambda: 'status %d with %d errors; %s' % (q.rc, len(want['e']), desc))
        o.stats['notes left out'] += sum(x[0] == 'note' for x in exp)
        o.stats['remarks left out'] += sum(x[0] == 'remark' for x in exp)
        o.stats['fatal errors'] += sum(x[0] == 'fatal' for x in exp)
        o.stats['in headers'] += sum(1 for k in 'ew' for x in want[k] if x[0].endswith('.h'))
        o.stats['sources with errors'] += faults
        o.stats['programs ' + how] += 1
        for k in 'ewb':
            for x in want[k]:
                o.sig.append((k, re.sub(r'\d+', '', re.sub("'[^']*'", "''", x[3])), os.path.splitext(x[0])[1]))
        o.n = 1 + sum(map(len, want.values()))
        o.sample = {'kind': how, 'flags': flags[:4], 'errors': want['e'][:1], 'warnings': want['w'][:1], 'bugs': want['b'][:1]}
        if not o.viol:
            o.files = {}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return o


if __name__ == '__main__':
    check.main('C11', case, plan, setup=setup, targets=('oclint', 'rules', 'reporters', 'plugins', 'refdiag'),
               rule='distinct diagnostic texts (names and numbers aside) observed, by kind and kind of file',
               assumptions=['diagnostics of the front end and the analyzer; complaints of the driver about unknown options are not diagnostics of the source',
                            'the position is the expansion position, with the line as changed by #line and the path of the file that was read',
                            'the reference is the same compiler library used without oclint'])
