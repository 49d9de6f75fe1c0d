"""C08: source positions. One token per line gives every token its own line, so each report names its tokens; the same
tokens laid out anew (white space, comments, line ends, macros, line directives, noise) must give the same reports at
the positions where the layout put those tokens."""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, gen, ocl, rulecheck as rc

LINE_RULES = {'LongLine', 'LongMethod', 'LongClass', 'PreferEarlyExit'}   # their verdict is about the layout itself
NOISE = '''static int noise%d(int a) { if (a) { } else { } int q; while (a) ; goto end; end: return (a); }
struct noise_s%d { int a, b; };
'''


def tokenize(unit):
    """list of tokens; a KEEP part (preprocessor lines) is a tuple"""
    out = []
    for pi, part in enumerate(unit.split(gen.KEEP)):
        if pi % 2:
            out.append((part,))
            continue
        glue = False
        for t in gen.TOK.findall(part):
            if t.isspace() or (t.startswith('/*') and t.endswith('*/')):
                continue
            if glue:
                out[-1] += t
            else:
                out.append(t)
            glue = t == '@'
    return out


def balanced(run):
    n = 0
    for t in run:
        if not isinstance(t, tuple) and t[0] not in '"\'' and not t.startswith('@"'):
            n += t.count('(') - t.count(')')
            if n < 0:
                return False
    return n == 0


class Emit:
    def __init__(self, nl=b'\n'):
        self.b = bytearray()
        self.line, self.col = 1, 1
        self.delta = 0
        self.nl = nl

    def put(self, s):
        if isinstance(s, str):
            s = s.encode('utf-8')
        parts = s.split(b'\n')
        for i, p in enumerate(parts):
            if i:
                self.b += self.nl
                self.line += 1
                self.col = 1
            self.b += p
            self.col += len(p)

    def fresh(self):
        if self.col != 1:
            self.put('\n')

    def here(self):
        return (self.line + self.delta, self.col)

    def set_line(self, n):
        """the next line will be number n"""
        self.fresh()
        self.put('#line %d\n' % n)
        self.delta = n - self.line


def layout_a(units, head):
    e = Emit()
    e.put(head)
    at = {}
    for u, toks in enumerate(units):
        for i, t in enumerate(toks):
            e.fresh()
            if isinstance(t, tuple):
                for j in range(t[0].count('\n') + 1):
                    at[e.line + j] = (u, i, j)
                e.put(t[0])
            else:
                at[e.line] = (u, i)
                e.put(t)
    e.put('\n')
    return bytes(e.b), at


class LayoutB:
    def __init__(self, rng, units, head, d):
        self.r, self.units, self.d = rng, units, d
        r = rng
        self.e = Emit(b'\r\n' if r.random() < 0.15 else b'\n')
        self.pos = {}
        self.nm = 0
        self.style = r.choice(['tight', 'wide', 'lines', 'mixed', 'mixed'])
        self.feat = {k for k in ('comments', 'splice', 'dirs', 'linedir', 'objmacro', 'funmacro', 'wrap', 'noise', 'tabs', 'utf8', 'ws')
                     if r.random() < 0.45}
        if r.random() < 0.1:
            self.e.b += b'\xef\xbb\xbf'
        self.e.put(head)

    def sep(self, a, b, indir):
        r = self.r
        x = r.random()
        free = (a[-1] in '(){};,[]' or b[0] in '(){};,[]') and not (a[-1] == '[' and b[0] == '[') and not (a[-1] == ']' and b[0] == ']') \
            and a != '/' and '@' not in a
        if self.style == 'tight' and free and x < 0.8:
            return ''
        s = ' '
        if x < {'tight': 0.05, 'wide': 0.15, 'lines': 0.7, 'mixed': 0.3}[self.style]:
            s = '\n' + ' ' * r.choice([0, 0, 1, 4, 17])
        elif self.style == 'wide' and x < 0.6:
            s = ' ' * r.choice([2, 5, 30])
        if 'tabs' in self.feat and r.random() < 0.2:
            s += '\t' * r.choice([1, 2])
        if 'ws' in self.feat and r.random() < 0.05:
            s += r.choice(['\f', '\v', ' \f '])
        if 'comments' in self.feat and r.random() < 0.12:
            s += r.choice(['/* note */', '/**/', '/* two\n lines */ ', '// end\n', '/* "quote\' */', '/// doc\n'])
        if 'utf8' in self.feat and r.random() < 0.08:
            s += r.choice(['/* \u00e4\u20ac */', '// \U0001F600 \u00df\n', '/* \u65e5\u672c\n\u8a9e */'])
        if 'splice' in self.feat and r.random() < 0.06:
            s += ' \\\n '
        if not indir:
            if 'dirs' in self.feat and r.random() < 0.04:
                s += r.choice(['\n#if 0\nif while { goto ( \n#endif\n', '\n#define VERIF_UNUSED 1\n#undef VERIF_UNUSED\n', '\n#pragma verif\n', '\n#ifndef VERIF_NEVER\n', '\n\n#\n'])
                if s.endswith('NEVER\n'):
                    s += '#endif\n'
        return s

    def token(self, u, i, t):
        self.pos[u, i] = self.e.here()
        self.e.put(t)

    def run(self):
        r, e = self.r, self.e
        for u, toks in enumerate(self.units):
            e.fresh()
            if 'linedir' in self.feat and r.random() < 0.5:
                e.set_line(r.choice([1, 7, 100, 5000, 1000000]))
            if 'noise' in self.feat and r.random() < 0.3:
                h = 'noise%d.h' % u
                open(os.path.join(self.d, h), 'w').write(NOISE % (u, u))
                e.put('#include "%s"\n' % h)
            plan, i = [], 0
            has_keep = any(isinstance(t, tuple) for t in toks)
            wrap = 'wrap' in self.feat and not has_keep and r.random() < 0.4
            # choose runs to hide in macros
            while i < len(toks):
                x = r.random()
                n = r.choice([1, 1, 2, 3, 6, 15, 40])
                run = toks[i:i + n]
                if any(isinstance(t, tuple) for t in run) or not balanced(run) and (wrap or r.random() < 0.9):
                    run = []
                if run and 'objmacro' in self.feat and x < 0.05:
                    plan.append(('obj', i, i + len(run)))
                    i += len(run)
                elif run and 'funmacro' in self.feat and x < 0.1 and len(run) > 1:
                    a = r.randint(0, len(run) - 1)
                    depth, b = 0, a
                    while b < len(run):
                        depth += run[b].count('(') - run[b].count(')') if run[b][0] not in '"\'' else 0
                        if depth < 0:
                            break
                        b += 1
                        if depth == 0 and r.random() < 0.3:
                            break
                    if b > a and sum(t.count('(') - t.count(')') for t in run[a:b] if t[0] not in '"\'@') == 0 \
                            and not any(t[0] in '"\'' and ('(' in t or ')' in t) for t in run[a:b]) and not any(t[0] == '@' and ('(' in t or '"' in t) for t in run[a:b]):
                        plan.append(('fun', i, i + a, i + b, i + len(run)))
                        i += len(run)
                    else:
                        plan.append(('tok', i))
                        i += 1
                else:
                    plan.append(('tok', i))
                    i += 1
            defs = []
            for k, p in enumerate(plan):
                if p[0] == 'obj':
                    self.nm += 1
                    e.put('#define VERIF_M%d %s\n' % (self.nm, ' '.join(toks[p[1]:p[2]])))
                    plan[k] = p + ('VERIF_M%d' % self.nm,)
                elif p[0] == 'fun':
                    self.nm += 1
                    e.put('#define VERIF_M%d(...) %s __VA_ARGS__ %s\n' % (self.nm, ' '.join(toks[p[1]:p[2]]), ' '.join(toks[p[3]:p[4]])))
                    plan[k] = p + ('VERIF_M%d' % self.nm,)
            if wrap:
                e.put('#define VERIF_ID(...) __VA_ARGS__\nVERIF_ID(')
            prev = '('
            for p in plan:
                if p[0] == 'tok':
                    t = toks[p[1]]
                    if isinstance(t, tuple):
                        e.fresh()
                        for j in range(t[0].count('\n') + 1):
                            self.pos[u, p[1], j] = (e.line + e.delta + j, 1)
                        e.put(t[0])
                        e.fresh()
                        prev = ';'
                        continue
                    e.put(self.sep(prev, t, wrap))
                    self.token(u, p[1], t)
                    prev = t
                elif p[0] == 'obj':
                    e.put(self.sep(prev, p[3], wrap) or ' ')
                    at = e.here()
                    for i in range(p[1], p[2]):
                        self.pos[u, i] = at + (0,)
                    e.put(p[3])
                    prev = p[3]
                else:
                    e.put(self.sep(prev, p[5], wrap) or ' ')
                    at = e.here()
                    for i in list(range(p[1], p[2])) + list(range(p[3], p[4])):
                        self.pos[u, i] = at + (0,)
                    e.put(p[5])
                    e.put('(')
                    prev = '('
                    for i in range(p[2], p[3]):
                        e.put(self.sep(prev, toks[i], True))
                        self.token(u, i, toks[i])
                        prev = toks[i]
                    e.put(' )')
                    prev = ')'
            if wrap:
                e.put(' )')
        e.put('\n' if r.random() < 0.8 else ' ')
        return bytes(e.b)


def run_file(d, f, text, lang, o):
    open(os.path.join(d, f), 'wb').write(text)
    r = ocl.run_retry(rc.prefix(), ['-report-type', 'verif-events', f, '--', '-w'] + gen.FLAGS[lang], d, env={'VERIF_QUERY': 've'})
    ev = ocl.events(r.out)
    return rc.rows(ev) if rc.usable(o, r, ev) else None


def case(spec):
    o = check.Outcome()
    lang, seed = spec['lang'], spec['seed']
    rng = check.rng_of(lang, seed, 'c08')
    p = gen.Program(rng, lang, rng.choice([3, 6, 10]), rng.sample(['klass', 'ocunit', 'emptyish', 'switch', 'ternary', 'paren', 'lambda', 'try', 'attry', 'decl'], 2))
    raw = p.units()
    units = [tokenize(u) for u in raw]
    d = ocl.mkd('c08-' + check.h(lang, seed))
    try:
        open(os.path.join(d, 'pre.h'), 'w').write(p.prelude())
        head = '#include "pre.h"\n'
        ta, at = layout_a(units, head)
        f = 'a' + gen.EXT[lang]
        o.files = {f: ta}
        ra = run_file(d, f, ta, lang, o)
        if ra is None:
            return o
        base, hdr = set(), set()
        for v in ra:
            if v[0] in LINE_RULES:
                continue
            if v[0] == 'ProblematicBaseClassDestructor' and v[1] == os.path.join(d, 'pre.h'):
                hdr.add(v)     # it is about the base class, which may be declared in a header
                continue
            if v[1] != os.path.join(d, f):
                o.bad('path:' + v[0], 'reported for file %s instead of %s' % (v[1], f))
                continue
            if any(l not in at or (c != 1 and len(at[l]) == 2 and (c != 2 or ta.split(b'\n')[l - 1][:1] != b'@')) for l, c in ((v[2], v[3]), (v[4], v[5]))):
                o.bad('token:' + v[0], 'not positioned at a token: %s (line %d holds %r)' % (rc.short(v), v[2], ta.split(b'\n')[v[2] - 1][:80]))
                continue
            base.add((v[0], at[v[2]], v[3] - 1, at[v[4]], v[5] - 1, v[6]))
        if not base:
            o.discard = None if o.viol else 'no reports'
            return o
        o.n = 0
        for k in range(spec.get('layouts', 3)):
            lb = LayoutB(check.rng_of(lang, seed, k), units, head, d)
            tb = lb.run()
            fb = check.rng_of(seed, k).choice(['b%d', 'b %d', 'sub/b%d', 'b-%d.x']) % k + gen.EXT[lang]
            os.makedirs(os.path.join(d, 'sub'), exist_ok=True)
            if fb.startswith('sub'):
                for x in os.listdir(d):
                    if x.endswith('.h'):
                        shutil.copy(os.path.join(d, x), os.path.join(d, 'sub', x))
            x = check.Outcome()
            rb = run_file(d, fb, tb, lang, x)
            o.files['b%d' % k] = tb
            if rb is None:
                if x.viol:
                    o.viol += x.viol
                    return o
                o.stats['layout does not compile'] += 1
                o.stats.update(x.stats)
                if os.environ.get('VERIF_KEEP'):
                    open('/tmp/t/c08-%s-%s' % (lang, check.h(tb)), 'wb').write(tb)
                continue
            # a token inside a macro body stands where the macro is used
            at_b = lambda k, off: lb.pos[k][:2] if len(lb.pos[k]) == 3 else (lb.pos[k][0], lb.pos[k][1] + off)
            want = {(n, os.path.join(d, fb)) + at_b(s, sc) + at_b(e, ec) + (m,) for n, s, sc, e, ec, m in base}
            hd = os.path.join(d, os.path.dirname(fb), 'pre.h')
            want |= {(v[0], hd) + v[2:] for v in hdr}
            got = {v for v in rb if v[0] not in LINE_RULES}
            text = tb.decode('utf-8', 'replace')
            for g in sorted(got - want)[:2]:
                near = [w for w in want - got if w[0] == g[0]]
                o.bad('pos:%s' % g[0], 'reported at %s; in this layout the tokens it is about make it %s; features %s' %
                      (rc.short(g), rc.short(near[0]) if near else 'no report at all', sorted(lb.feat)))
            for w in sorted(want - got)[:2]:
                o.bad('pos:%s' % w[0], 'not reported at %s; features %s\n%s' % (rc.short(w), sorted(lb.feat), rc.snippet(text, w)))
            o.n += len(want)
            for ft in lb.feat:
                o.stats['layout with ' + ft] += 1
            o.stats['positions compared'] += len(want & got)
            for w in want & got:
                o.stats['rule ' + w[0]] += 1
            o.sig.append((lang, check.h(tb)))
            o.sample = {'lang': lang, 'features': sorted(lb.feat), 'reports': len(want)}
            if o.viol:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return o


def plan(tier, seed):
    n = 420 if tier == 'quick' else 12000
    langs = ['c', 'cxx', 'objc', 'objcxx', 'cxx', 'c89']
    for i in range(n):
        yield {'lang': langs[i % len(langs)], 'seed': '%d-%d' % (seed, i)}


if __name__ == '__main__':
    check.main('C08', case, plan, setup=rc.setup,
               rule='a re-layout (white space, comments, splices, CRLF, macros, #line, included noise) of a program in which every report of every '
                    'rule moved exactly with its tokens; counted once per distinct layout text')
