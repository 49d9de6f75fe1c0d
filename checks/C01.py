"""C01: JSON, XML and PMD reports are well formed and read back to the results that were reported.

Scripted rules put arbitrary results through the real program; a standard parser reads each report."""
import datetime, json, os, shutil, sys, time
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, ocl, results

PFX = None


def setup():
    global PFX
    PFX = ocl.Prefix('c01', rules=(), reporters='all', plugins=('script',))


def plan(tier, seed):
    for i in range(500 if tier == 'quick' else 30000):
        yield [seed, i]


def rows_json(vs, o, what):
    out = []
    for v in vs:
        extra = set(v) - {'path', 'startLine', 'startColumn', 'endLine', 'endColumn', 'rule', 'category', 'priority', 'message'}
        o.need(not extra, 'json-extra', '%s entry has %s' % (what, extra))
        ends = ('endLine' in v, 'endColumn' in v)
        o.need(ends[0] == ends[1], 'json-ends', 'one end position only: %r' % v)
        for k in ('path', 'message', 'rule', 'category'):
            o.need(isinstance(v.get(k, ''), str), 'json-type', '%s is %r' % (k, v.get(k)))
        for k in ('startLine', 'startColumn', 'endLine', 'endColumn', 'priority'):
            o.need(isinstance(v.get(k, 0), int), 'json-type', '%s is %r' % (k, v.get(k)))
        out.append((v.get('rule'), v.get('category'), v.get('priority'), v.get('path'), v.get('startLine'), v.get('startColumn'),
                    v.get('endLine'), v.get('endColumn'), v.get('message')))
    return out


def rows_xml(el):
    i = lambda x: None if x is None else int(x)
    return [(v.get('rule'), v.get('category'), i(v.get('priority')), v.get('path'), i(v.get('startline')), i(v.get('startcolumn')),
             i(v.get('endline')), i(v.get('endcolumn')), v.get('message')) for v in el]


def want(sc, l):
    out = []
    for ru, p, a, b, c, d, m in l:
        rn = sc.rules[ru] if ru is not None else (None, None, None)
        e = (c, d) if c != 0 and d != 0 else (None, None)
        out.append(tuple(rn) + (p, a, b) + e + (m,))
    return out


def diff(got, exp):
    if got == exp:
        return None
    for i, (g, x) in enumerate(zip(got, exp)):
        if g != x:
            return 'entry %d reads %r, reported was %r' % (i, g, x)
    return '%d entries, reported were %d (%r)' % (len(got), len(exp), (got[len(exp):] or exp[len(got):])[:1])


def nodup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError('key %r twice in one object' % k)
        d[k] = v
    return d


def now_ok(s, t0, t1):
    try:
        t = datetime.datetime.strptime(s, '%Y-%m-%dT%H:%M:%SZ').replace(tzinfo=datetime.timezone.utc).timestamp()
    except ValueError:
        return False
    return t0 - 2 <= t <= t1 + 2


def summary(o, kind, got, c):
    exp = {'files': c['f'], 'withv': c['g'], 'p1': c[1], 'p2': c[2], 'p3': c[3]}
    o.need(got == exp, kind + '-summary', 'summary says %s, the results are %s' % (got, exp))


def case(spec):
    seed, i = spec
    r = check.rng_of('C01', seed, i)
    o = check.Outcome()
    d = ocl.mkd('c01-%d-%s' % (os.getpid(), check.h(spec)))
    try:
        sc = None
        for kind in ('json', 'xml', 'pmd'):
            ctl = kind == 'json' and r.random() < 0.3
            if sc is None or ctl:
                sc2 = results.Scenario(r, ws='\t\n\r ', ctl=ctl)
                if not ctl:
                    sc = sc2
            else:
                sc2 = sc
            dup = r.random() < 0.5
            names = sc2.install(d)
            res = sc2.results(dup)
            cn = sc2.counts(res)
            args = ['-report-type', kind, '-o', 'out'] + (['-allow-duplicated-violations'] if dup else []) + names + ['--', '-x', 'c']
            t0 = time.time()
            q = ocl.run_retry(PFX, args, d, {'VERIF_SCRIPT': d + '/script'})
            t1 = time.time()
            if q.crashed:
                o.bad('crash', q.crash_text())
                o.files['stderr'] = q.err
                break
            try:
                doc = open(d + '/out', 'rb').read()
            except OSError:
                o.bad('no-report', 'no %s report written, status %d' % (kind, q.rc))
                continue
            bad = len(o.viol)
            try:
                if kind == 'json':
                    j = json.loads(doc.decode('utf-8'), object_pairs_hook=nodup)
                    dd = diff(rows_json(j['violation'], o, 'violation'), want(sc2, res['v']))
                    o.need(not dd, 'json-violations', dd)
                    dd = diff(rows_json(j['clangStaticAnalyzer'], o, 'checker bug'), want(sc2, res['b']))
                    o.need(not dd, 'json-bugs', dd)
                    o.need(isinstance(j['timestamp'], int) and t0 - 2 <= j['timestamp'] <= t1 + 2, 'json-time',
                           'timestamp %r, it was %.0f' % (j['timestamp'], t1))
                    s = j['summary']
                    pr = s['numberOfViolationsWithPriority']
                    o.need([x['priority'] for x in pr] == [1, 2, 3], 'json-summary', pr)
                    summary(o, 'json', {'files': s['numberOfFiles'], 'withv': s['numberOfFilesWithViolations'],
                            'p1': pr[0]['number'], 'p2': pr[1]['number'], 'p3': pr[2]['number']}, cn)
                elif kind == 'xml':
                    root = ET.fromstring(doc)
                    o.need(root.tag == 'oclint' and root.get('version') and root.get('url'), 'xml-root', root.attrib)
                    dt = root.findtext('datetime')
                    o.need(now_ok(dt or '', t0, t1), 'xml-time', 'datetime %s, it was %.0f' % (dt, t1))
                    dd = diff(rows_xml(root.find('violations')), want(sc2, res['v']))
                    o.need(not dd, 'xml-violations', dd)
                    dd = diff(rows_xml(root.find('clangstaticanalyzer')), want(sc2, res['b']))
                    o.need(not dd, 'xml-bugs', dd)
                    s = {p.get('name'): int(p.text) for p in root.find('summary')}
                    summary(o, 'xml', {'files': s['number of files'], 'withv': s['files with violations'],
                            'p1': s['number of priority 1 violations'], 'p2': s['number of priority 2 violations'],
                            'p3': s['number of priority 3 violations']}, cn)
                else:
                    root = ET.fromstring(doc)
                    o.need(root.tag == 'pmd' and root.get('version'), 'pmd-root', root.attrib)
                    got = []
                    for f in root:
                        o.need(f.tag == 'file', 'pmd-file', f.tag)
                        for v in f:
                            # line breaks around the message belong to the layout, not to the message
                            tx = v.text or ''
                            if tx.startswith('\n') and tx.endswith('\n') and len(tx) > 1:
                                tx = tx[1:-1]
                            got.append((f.get('name'), int(v.get('beginline')), int(v.get('begincolumn')), int(v.get('endline')),
                                        int(v.get('endcolumn')), v.get('rule'), v.get('ruleset'), int(v.get('priority')), tx))
                    exp = []
                    for l, rn, p in (('e', 'compiler error', 1), ('w', 'compiler warning', 2), ('v', None, 0), ('b', 'clang static analyzer', 2)):
                        for ru, pa, a, b, c, e, m in res[l]:
                            n, cat, pp = (rn, 'clang', p) if rn else (sc2.rules[ru][0], sc2.rules[ru][1], 2 * sc2.rules[ru][2] - 1)
                            exp.append((pa, a, b, c, e, n, cat, pp, m))
                    dd = diff(got, exp)
                    o.need(not dd, 'pmd-entries', dd)
            except (ValueError, ET.ParseError, UnicodeDecodeError, KeyError, TypeError, AttributeError, IndexError) as ex:
                o.bad(kind + '-malformed', '%s: %s' % (type(ex).__name__, ex))
            if len(o.viol) > bad:
                o.files['report.' + kind] = doc
                o.files['script.' + kind] = sc2.script()
            o.stats['%s entries read back' % kind] += len(res['v']) + len(res['b']) + (len(res['e']) + len(res['w']) if kind == 'pmd' else 0)
            o.stats['reports %s%s' % (kind, ' with duplicates' if dup else '')] += 1
            raw = ''.join(x[1] + x[6] for l in 'vewb' for x in res[l]) + ''.join(n + c for n, c, p in sc2.rules)
            for ch in set(raw):
                if ch in '"\\<>&\'\t\n\r' or ord(ch) > 126 or ord(ch) < 32:
                    o.stats['texts with %r in %s' % (ch, kind)] += 1
            if res['v'] or res['b']:
                o.sig.append((kind, dup, cn['n'], cn['B'], frozenset(c for c in raw if not c.isalnum())))
        o.n = 3
        o.sample = sc.describe() if sc else None
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return o


if __name__ == '__main__':
    check.main('C01', case, plan, setup=setup, targets=('oclint', 'reporters', 'plugins'),
               rule='report with at least one result, distinct in format, duplicate setting, number of results and special characters used',
               assumptions=['text is valid UTF-8; XML and PMD texts hold only characters XML can express',
                            'an end position is stated only when both its line and column are non-zero'])
