"""C02: the text, Xcode and HTML reports list every result with its data, under its own kind.

Scripted rules put arbitrary results through the real program; the reports are read back by line (text, Xcode)
and by an HTML parser that also checks that every element is closed."""
import os, re, shutil, sys
from html.parser import HTMLParser
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, ocl, results

PFX = None
VOID = {'hr', 'br', 'meta', 'link', 'img', 'input'}


def setup():
    global PFX
    PFX = ocl.Prefix('c02', rules=(), reporters='all', plugins=('script',))


def plan(tier, seed):
    for i in range(500 if tier == 'quick' else 30000):
        yield [seed, i]


class Page(HTMLParser):
    """rows of every table; complains about elements that are not closed or closed out of order"""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack, self.tables, self.errs, self.cell = [], [], [], None
        self.doctype = None

    def handle_decl(self, d):
        self.doctype = d

    def handle_comment(self, d):
        self.errs.append('comment %r' % d[:60])

    def handle_pi(self, d):
        self.errs.append('processing instruction %r' % d[:60])

    def unknown_decl(self, d):
        self.errs.append('declaration %r' % d[:60])

    def handle_startendtag(self, tag, attrs):
        if tag not in VOID:
            self.errs.append('<%s/>' % tag)

    def handle_starttag(self, tag, attrs):
        if tag in VOID:
            return
        if tag not in ('html', 'head', 'title', 'style', 'script', 'body', 'h1', 'h2', 'h3', 'table', 'thead', 'tbody', 'tr', 'th',
                       'td', 'p', 'a', 'div', 'span'):
            self.errs.append('element <%s>' % tag)
        self.stack.append(tag)
        if tag == 'table':
            self.tables.append({'head': [], 'rows': []})
        elif tag == 'tr' and self.tables:
            self.row = []
        elif tag in ('td', 'th'):
            self.cell = ''

    def handle_endtag(self, tag):
        if not self.stack or self.stack[-1] != tag:
            self.errs.append('</%s> inside %s' % (tag, self.stack[-3:]))
            if tag in self.stack:
                while self.stack[-1] != tag:
                    self.stack.pop()
                self.stack.pop()
            return
        self.stack.pop()
        if tag in ('td', 'th') and self.tables:
            self.row.append(self.cell)
            self.cell = None
        elif tag == 'tr' and self.tables:
            self.tables[-1]['head' if 'thead' in self.stack else 'rows'].append(self.row)

    def handle_data(self, d):
        if self.cell is not None:
            self.cell += d
        elif self.stack and self.stack[-1] in ('table', 'thead', 'tbody', 'tr') and d.strip():
            self.errs.append('text %r directly inside <%s>' % (d.strip()[:40], self.stack[-1]))


def cmp(o, key, got, exp, what):
    for i, (g, x) in enumerate(zip(got, exp)):
        if g != x:
            return o.bad(key, '%s %d reads %r, expected %r' % (what, i, g, x))
    if len(got) != len(exp):
        o.bad(key, '%d %ss, expected %d: %r' % (len(got), what, len(exp), (got[len(exp):] or exp[len(got):])[:2]))


def vline(sc, x, xcode):
    n, c, p = sc.rules[x[0]]
    return '%s:%d:%d: %s%s [%s|P%d] %s' % (x[1], x[2], x[3], 'warning: ' if xcode else '', n, c, p, x[6])


def dline(x):
    return '%s:%d:%d: %s' % (x[1], x[2], x[3], x[6])


def do_text(o, sc, doc, res, cn):
    # sections: heading line(s), then the entries; every other line is empty or one of the fixed ones
    exp = [('errors', dline(x)) for x in res['e']] + [('warnings', dline(x)) for x in res['w']] + \
          [('bugs', dline(x)) for x in res['b']] + [('violations', vline(sc, x, False)) for x in res['v']]
    heads = {'Compiler Errors:': 'errors', 'Compiler Warnings:': 'warnings', 'Clang Static Analyzer Results:': 'bugs'}
    sec, got, summ = 'top', [], None
    for l in doc.split('\n'):
        if sec != 'violations' and l in heads:
            sec = heads[l]
        elif l == 'OCLint Report' and sec != 'violations':
            sec = 'head'
        elif sec == 'head' and l.startswith('Summary: '):
            sec, summ = 'violations', dict(x.split('=') for x in l[9:].split())
        elif l == '' or l.startswith('(please be aware') or (re.match(r'^\[OCLint \(http.*\) v[^\]]*\]$', l)):
            pass
        else:
            got.append((sec, l))
    cmp(o, 'text-entries', got, exp, 'entry')
    o.need(summ is not None, 'text-summary', 'no summary')
    if summ:
        e = {'TotalFiles': cn['f'], 'FilesWithViolations': cn['g'], 'P1': cn[1], 'P2': cn[2], 'P3': cn[3]}
        o.need({k: int(v) for k, v in summ.items()} == e, 'text-summary', 'summary says %s, the results are %s' % (summ, e))


def do_xcode(o, sc, doc, res, cn):
    cmp(o, 'xcode-entries', [l for l in doc.split('\n') if l != ''], [vline(sc, x, True) for x in res['v']], 'entry')


def do_html(o, sc, doc, res, cn):
    p = Page()
    p.feed(doc)
    p.close()
    o.need(p.doctype and p.doctype.lower() == 'doctype html', 'html-form', 'doctype %r' % p.doctype)
    o.need(not p.errs, 'html-form', p.errs[:3])
    o.need(not p.stack, 'html-form', 'not closed: %s' % p.stack)
    if not o.need(len(p.tables) == 2 and len(p.tables[0]['rows']) == 1, 'html-form', 'tables %r' % p.tables[:1]):
        return
    s = dict(zip(p.tables[0]['head'][0], p.tables[0]['rows'][0]))
    e = {'Total Files': cn['f'], 'Files with Violations': cn['g'], 'Priority 1': cn[1], 'Priority 2': cn[2], 'Priority 3': cn[3],
         'Compiler Errors': cn['E'], 'Compiler Warnings': cn['W'], 'Clang Static Analyzer': cn['B']}
    o.need(s == {k: str(v) for k, v in e.items()}, 'html-summary', 'summary says %s, the results are %s' % (s, e))
    t = p.tables[1]
    o.need(t['head'] == [['File', 'Location', 'Rule Name', 'Rule Category', 'Priority', 'Message']], 'html-form', t['head'])
    exp = []
    for x in res['v']:
        n, c, pr = sc.rules[x[0]]
        exp.append([x[1], '%d:%d' % x[2:4], n, c, str(pr), x[6]])
    for l, n, k in (('e', 'compiler error', 'error'), ('w', 'compiler warning', 'warning'), ('b', 'clang static analyzer', 'checker bug')):
        exp += [[x[1], '%d:%d' % x[2:4], n, '', k, x[6]] for x in res[l]]
    cmp(o, 'html-entries', t['rows'], exp, 'row')


def case(spec):
    seed, i = spec
    r = check.rng_of('C02', seed, i)
    o = check.Outcome()
    d = ocl.mkd('c02-%d-%s' % (os.getpid(), check.h(spec)))
    try:
        sc = None
        for kind, f in (('text', do_text), ('xcode', do_xcode), ('html', do_html)):
            sc = results.Scenario(r, ws='\t\n ' if kind == 'html' else '\t ')
            dup = r.random() < 0.5
            names = sc.install(d)
            res = sc.results(dup)
            cn = sc.counts(res)
            # text is the default report type
            ty = [] if kind == 'text' and r.random() < 0.5 else ['-report-type', kind]
            args = ty + ['-o', 'out'] + (['-allow-duplicated-violations'] if dup else []) + names + ['--', '-x', 'c']
            q = ocl.run_retry(PFX, args, d, {'VERIF_SCRIPT': d + '/script'})
            if q.crashed:
                o.bad('crash', q.crash_text())
                o.files['stderr'] = q.err
                break
            try:
                doc = open(d + '/out', 'rb').read()
            except OSError:
                o.bad('no-report', 'no %s report written, status %d' % (kind, q.rc))
                continue
            bad = len(o.viol)
            try:
                f(o, sc, doc.decode('utf-8'), res, cn)
            except (UnicodeDecodeError, ValueError) as ex:
                o.bad(kind + '-malformed', '%s: %s' % (type(ex).__name__, ex))
            if len(o.viol) > bad:
                o.files['report.' + kind] = doc
                o.files['script.' + kind] = sc.script()
            o.stats['%s entries read back' % kind] += sum(len(res[k]) for k in ('vewb' if kind != 'xcode' else 'v'))
            o.stats['reports %s%s' % (kind, ' with duplicates' if dup else '')] += 1
            for k, n in (('e', 'errors'), ('w', 'warnings'), ('b', 'bugs')):
                if res[k]:
                    o.stats['%s reports with %s' % (kind, n)] += 1
            raw = ''.join(x[1] + x[6] for l in 'vewb' for x in res[l]) + ''.join(n + c for n, c, p in sc.rules)
            if cn['n'] + cn['E'] + cn['W'] + cn['B']:
                o.sig.append((kind, dup, cn['n'], cn['B'], cn['E'], cn['W'], frozenset(c for c in raw if not c.isalnum())))
        o.n = 3
        o.sample = sc.describe() if sc else None
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return o


if __name__ == '__main__':
    check.main('C02', case, plan, setup=setup, targets=('oclint', 'reporters', 'plugins'),
               rule='report with at least one result, distinct in format, duplicate setting, numbers of results and special characters used',
               assumptions=['text is valid UTF-8; for the line-oriented reports it contains no line break',
                            'the Xcode report lists rule violations only (Xcode knows the compiler diagnostics)'])
