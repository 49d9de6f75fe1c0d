"""Scripted results: random sets of rules, violations, errors, warnings and checker bugs that the
script plugin feeds through the real program, and what a reader of the results must find."""
import os, random

ASCII = [chr(c) for c in range(0x20, 0x7f)]
NASTY = list('"\\\'<>&/;:|[]{}(),%$#`~^=+*?!@') + ['&amp;', '&lt;', '<!--', '-->', ']]>', '<![CDATA[', '</td>', '</tr>',
         '<b>', '\\n', '\\u0041', '\\\\', '\\"', '&#10;', '%s', '%n', '${x}', '</script>', '"/>', "'>", '<?xml', '?>', '  ',
         '&quot;', '&nosuch;', '//', '/*', '*/', '\\/', '","', '":"', '"}', 'null', '&#x0;', '<br/>', '\\t', '&copy', '&#60']
UNI = ['\u00e9', '\u00df', '\u4e2d', '\u6587', '\U0001f600', '\u2028', '\u2029', '\u00a0', '\ufeff', '\u0301', '\u202e', '\U0010fffd', '\u0416',
       '\u00ab', '\u200b', '\ud7ff', '\ue000', '\u00ad']
WORDS = ['value', 'x', 'foo', 'unused', 'method', 'long', "'a'", 'if', 'statement', 'Class::name', 'operator<', 'std::vector<int>']


def text(r, ws='', ctl=False, empty=True):
    k = r.random()
    if k < 0.05 and empty:
        return ''
    n = r.choice([1, 1, 2, 3, 4, 6, 10, 25])
    if k > 0.985:
        n = r.choice([200, 900, 3000])
    out = []
    for _ in range(n):
        q = r.random()
        if q < 0.3:
            out.append(r.choice(ASCII))
        elif q < 0.6:
            out.append(r.choice(NASTY))
        elif q < 0.72:
            out.append(r.choice(UNI))
        elif q < 0.82 and ws:
            out.append(r.choice(ws))
        elif q < 0.84 and ctl:
            out.append(chr(r.choice([1, 2, 7, 8, 11, 12, 14, 27, 31, 127])))
        else:
            out.append(r.choice(WORDS) + r.choice(['', ' ']))
    s = ''.join(out)
    return s if s or empty else 'n'


def number(r):
    k = r.random()
    if k < 0.6:
        return r.randrange(1, 60)
    if k < 0.75:
        return 0
    if k < 0.9:
        return r.randrange(100, 100000)
    return r.choice([2147483647, 2147483646, 1 << 24, 65535, 65536, 1 << 30, 999999999])


class Scenario:
    """rules: (name, category, priority); v[tu] = [(rule, path, sl, sc, el, ec, msg)]; e, w, b: diagnostics"""

    def __init__(self, r, ws='', ctl=False, size=None):
        self.ntu = r.choice([1, 1, 2, 3, 4])
        pool_t = [text(r, ws, ctl) for _ in range(r.randrange(2, 7))]
        pool_p = ['/' + text(r, ws, ctl) for _ in range(r.randrange(1, 5))] + ['/tmp/a.c', 'rel/b.cpp']
        nr = r.choice([1, 2, 2, 3, 4, 6])
        self.rules = []
        for i in range(nr):
            # names start with a letter: a rule without any letter in its name has an empty identifier
            n = 'r' + text(r, ws, ctl)
            self.rules.append((n, text(r, ws, ctl), r.choice([1, 2, 3, 3, 2, 1, r.choice([1, 2, 3, 4, 0])])))
        if nr > 1 and r.random() < 0.3:
            self.rules[-1] = self.rules[0]                       # two rules that look the same
        if nr > 1 and r.random() < 0.3:
            self.rules[1] = (self.rules[0][0], self.rules[1][1], self.rules[1][2])

        def fresh(rule):
            if r.random() < 0.5 and seen:
                o = list(r.choice(seen))
                k = r.randrange(10)
                if k == 0: o[0] = rule
                elif k == 1: o[1] = r.choice(pool_p)
                elif k == 2: o[6] = r.choice(pool_t)
                elif k < 7: o[k - 1] = r.choice([number(r), o[k - 1] ^ r.choice([1, 2, 4, 256])])
                elif k == 7:                                     # the same bits, spread otherwise
                    o[2] ^= 4; o[3] ^= 1
                elif k == 8:
                    o[4] ^= 16; o[5] ^= 1
                elif k == 9 and len(o[1]) > 2:                   # same concatenation of path and message
                    o[6] = o[1][-1] + o[6]; o[1] = o[1][:-1]
                if o[0] is None and rule is not None: o[0] = rule
                if rule is None: o[0] = None
                return tuple(o)
            a = [number(r) for _ in range(4)]
            return (rule, r.choice(pool_p), a[0], a[1], a[2], a[3], r.choice(pool_t) if r.random() < 0.5 else text(r, ws, ctl))

        seen = []
        size = size or r.choice([0, 1, 2, 5, 12, 40])

        def many(rule, k):
            out = []
            for _ in range(k):
                x = fresh(rule() if callable(rule) else rule)
                if r.random() < 0.25 and seen:
                    y = r.choice(seen)
                    x = (x[0],) + y[1:] if (x[0] is None) != (y[0] is None) else y
                seen.append(x)
                out.append(x)
            return out
        self.v = []
        for t in range(self.ntu):
            k = r.randrange(size + 1) if r.random() < 0.85 else 0
            self.v.append(many(lambda: r.randrange(nr), k))
        self.e = many(None, r.choice([0, 0, 0, 1, 2, 5]))
        self.w = many(None, r.choice([0, 0, 1, 2, 6]))
        self.b = many(None, r.choice([0, 0, 1, 3, 6]))
        if r.random() < 0.08:
            self.e = self.w = self.b = []
        if r.random() < 0.1:
            self.v = [[] for _ in self.v]
        # a diagnostic without a location has no path
        if self.e and r.random() < 0.2:
            self.e.append((None, '', 0, 0, 0, 0, 'too many errors emitted, stopping now'))

    def script(self):
        hx = lambda s: s.encode().hex() or '-'
        o = []
        for n, c, p in self.rules:
            o.append('R %s %s %d' % (hx(n), hx(c), p))
        for t, vs in enumerate(self.v):
            for ru, p, a, b, c, d, m in vs:
                o.append('V %d %d %s %d %d %d %d %s' % (t, ru, hx(p), a, b, c, d, hx(m)))
        for k, l in (('E', self.e), ('W', self.w), ('B', self.b)):
            for _, p, a, b, c, d, m in l:
                o.append('%s %s %d %d %d %d %s' % (k, hx(p), a, b, c, d, hx(m)))
        return '\n'.join(o) + '\n'

    def collected(self):
        """violations in the order in which they reach the collection"""
        out = []
        for vs in self.v:
            for ru in range(len(self.rules)):
                out += [x for x in vs if x[0] == ru and x[1] != '']
        return out

    def results(self, dup):
        f = (lambda l: list(l)) if dup else uniq
        return {'v': f(self.collected()), 'e': f(self.e), 'w': f(self.w), 'b': f(self.b)}

    def counts(self, res):
        """what counting the listed results gives"""
        pr = [self.rules[x[0]][2] for x in res['v']]
        return {'f': self.ntu, 'g': len({x[1] for x in res['v']}), 'n': len(res['v']),
                1: pr.count(1), 2: pr.count(2), 3: pr.count(3),
                'E': len(res['e']), 'W': len(res['w']), 'B': len(res['b'])}

    def install(self, d):
        open(os.path.join(d, 'script'), 'w').write(self.script())
        names = []
        for i in range(self.ntu):
            n = 's%d.c' % i
            open(os.path.join(d, n), 'w').write('int f%d;\n' % i)
            names.append(n)
        return names

    def describe(self):
        return {'rules': len(self.rules), 'units': self.ntu, 'collected': sum(map(len, self.v)), 'e': len(self.e),
                'w': len(self.w), 'b': len(self.b), 'example': (self.collected() or self.e or self.w or self.b or ['none'])[0]}


def uniq(l):
    out, s = [], set()
    for x in l:
        if x not in s:
            s.add(x)
            out.append(x)
    return out
