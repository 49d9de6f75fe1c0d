"""C09: independence. Each source's results alone, against its results in company, in any order, again, globally, with other rules."""
import json, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, gen, ocl, rulecheck as rc

LANGS = ['c', 'cxx', 'objc', 'objcxx', 'c89']
FOCUS = ['klass', 'ocunit', 'switch', 'loop', 'lambda', 'decl', 'paren', 'emptyish', 'nullcheck', 'nscheck']


def sources(rng, d):
    """[(path, flags, text)] written below d"""
    out = []
    n = rng.randint(2, 6)
    same_name = rng.random() < 0.6
    for i in range(n):
        u = os.path.join(d, 'u%d' % i)
        os.makedirs(u)
        k = rng.random()
        lang = rng.choice(LANGS)
        pre = None
        if out and k < 0.4:
            # nearly the same source again: without its suppressions, with its lines moved, or as it is
            j = rng.randrange(len(out))
            _, lang, text, pre = out[j]
            how = rng.random()
            if how < 0.6:
                text = text.replace('//!OCLINT', '//!OCLIMT').replace('"oclint:', '"oclimt:')
            elif how < 0.75:
                text = '\n' + text
            elif how < 0.9:
                text = re.sub(r'\bfor \(', 'for (;0;) for (', text, count=rng.choice([0, 1, 3])) if '//!OCLINT' not in text else text
        elif k < 0.48:
            text = rng.choice(['', '\n', '// nothing\n', '#if 0\nint a(int b) { if (b) {} }\n#endif\n', 'int x;\n', '//!OCLINT\n' * 80])
        else:
            text, pre = gen.source(rng, lang, size=rng.choice([1, 2, 4, 6]), focus=rng.sample(FOCUS, 2))
            ls = text.split('\n')
            for _ in range(rng.choice([0, 0, 4, 12])):
                j = rng.randrange(len(ls))
                if ls[j] and not ls[j].endswith('\\') and not ls[j].startswith('#'):
                    ls[j] += ' //!OCLINT'
            text = '\n'.join(ls)
            if lang != 'c89' and rng.random() < 0.3:
                text += '\n__attribute__((annotate("oclint:suppress"))) int sup%d(int a) {\n if (a) {}\n return 0; }\n' % i
            if rng.random() < 0.15:
                text += rng.choice(['\nint bad(int a) { return undeclared; }\n', '\n#error no\n', '\n#include "missing.h"\n', '\nint }\n'])
        name = ('m' if same_name else 'm%d' % i) + gen.EXT[lang]
        open(os.path.join(u, name), 'w').write(text)
        if pre:
            open(os.path.join(u, 'pre.h'), 'w').write(pre)
        out.append((os.path.join(u, name), lang, text, pre))
    return out


def split(ev, d):
    """unit -> {kind+rule: rows}"""
    res = {}
    for letter, rows in ev['q']:
        for v in rows:
            p = v[4]
            u = p[len(d) + 1:].split('/')[0] if p.startswith(d + '/') else p
            res.setdefault(u, {}).setdefault(letter + ':' + (v[3] or ''), []).append(tuple(v[3:]))
    return res


def case(spec):
    o = check.Outcome()
    o.n = 0
    seed = spec['seed']
    rng = check.rng_of(seed, 'c09')
    d = ocl.mkd('c09-' + check.h(seed))
    try:
        srcs = sources(rng, d)
        db = []
        rel = rng.random() < 0.5
        extra = rng.choice([[], ['-Wall'], ['-w'], ['-Wall', '-Wextra', '-Werror=unused-variable'], ['-O2', '-DNDEBUG'], ['-o', 'm.o']])
        for p, lang, text, pre in srcs:
            n = os.path.basename(p) if rel else p
            db.append({'directory': os.path.dirname(p), 'file': n, 'arguments': ['cc'] + gen.FLAGS[lang] + extra + ['-c', n]})
        rng.shuffle(db)
        json.dump(db, open(d + '/compile_commands.json', 'w'))
        o.files = {os.path.relpath(p, d): t for p, l, t, _ in srcs}
        conf = []
        for k, v in (('LONG_LINE', rng.choice([30, 60, 100])), ('SHORT_VARIABLE_NAME', 3), ('CYCLOMATIC_COMPLEXITY', 2), ('LONG_METHOD', 4)):
            if rng.random() < 0.5:
                conf += ['-rc', '%s=%d' % (k, v)]

        def go(files, opts=(), reuse=False):
            a = ['-p', d, '-report-type', 'verif-events'] + conf + list(opts) + files
            env = {'VERIF_QUERY': 'vewb'}
            if reuse:
                # freed memory is used again at once: what is remembered by address is then taken for something else
                env['ASAN_OPTIONS'] = ocl.ASAN + ':quarantine_size_mb=0:thread_local_quarantine_size_kb=0'
            r = ocl.run_retry(rc.prefix(), a, d, env=env)
            if r.crashed:
                o.bad('crash', 'oclint crashed: %s\n%s' % (r.crash_text(), ' < '.join(r.crash_frames())))
                o.files['command'] = ' '.join(r.cmd)
                return None
            ev = ocl.events(r.out)
            if ev is None:
                o.bad('no-report', 'no report was written (status %d): %s\n%s' % (r.rc, r.err[-300:], ' '.join(r.cmd)))
            return ev
        ref, raw = {}, {}
        for p, lang, text, pre in srcs:
            ev = go([p], ['-allow-duplicated-violations'])
            if ev is None:
                return o
            raw[p] = ev
            ref[p] = split(ev, d)
            u = os.path.relpath(p, d).split('/')[0]
            for x in ref[p]:
                if x not in (u, ''):
                    o.bad('foreign', 'analysing %s alone yields results for %s: %s' % (u, x, list(ref[p][x].items())[:1]))
        # again: the whole document
        p = rng.choice(srcs)[0]
        ev = go([p], ['-allow-duplicated-violations'])
        if ev is not None and ev['q'] != raw[p]['q']:
            o.bad('again', 'two runs of the same command differ: %s' % diff(raw[p]['q'], ev['q']))
        o.n += 1
        names = sorted({k[2:] for p in ref for u in ref[p] for k in ref[p][u] if k.startswith('v:')})
        for i in range(4):
            paths = [s[0] for s in srcs]
            rng.shuffle(paths)
            if rng.random() < 0.4:
                paths += [rng.choice(paths) for _ in range(rng.randint(1, 3))]
                rng.shuffle(paths)
            glob = i % 2 == 1
            dup = rng.random() < 0.6
            opts = (['-allow-duplicated-violations'] if dup else []) + (['-enable-global-analysis'] if glob else [])
            # clang's own option parser removes repetitions from the list of sources? observed below
            on = None
            if i >= 2 and names:
                pick = rng.sample(names, rng.randint(1, min(6, len(names))))
                if rng.random() < 0.6:
                    on = set(pick)
                    opts += [x for n in pick for x in ('-rule', n)]
                else:
                    on = set(names) - set(pick)
                    opts += [x for n in pick for x in ('-disable-rule', n)]
            csa = rng.random() < 0.12
            if csa:
                opts.append('-enable-clang-static-analyzer')
            ev = go(paths, opts, i % 4 in (0, 3))
            if ev is None:
                return o
            got = split(ev, d)
            for p, lang, text, pre in srcs:
                u = os.path.relpath(p, d).split('/')[0]
                times = paths.count(p) if dup else 1
                for key in sorted(set(ref[p].get(u, {})) | set(got.get(u, {}))):
                    if key.startswith('b:'):
                        continue
                    if csa and not key.startswith('v:'):
                        continue
                    want = ref[p].get(u, {}).get(key, []) if not key.startswith('v:') or on is None or key[2:] in on else []
                    if not dup:
                        want = list(dict.fromkeys(want))
                    have = got.get(u, {}).get(key, [])
                    o.n += 1
                    if have != want * times:
                        o.bad('%s:%s%s' % (key, 'global' if glob else 'local', ':rules' if on is not None else ''),
                              '%s of %s differ from its analysis alone: %s\nanalysed in the order %s, options %s' %
                              (key, u, diff(want * times, have), [os.path.relpath(x, d) for x in paths], ' '.join(opts)))
                    elif want:
                        o.stats[key[:2] + (' global' if glob else ' local') + (' subset' if on is not None else '')] += len(want)
            for u in got:
                if u and not any(p.startswith(d + '/' + u + '/') for p in paths):
                    o.bad('foreign', 'results for %s, which no source contains: %s' % (u, list(got[u].items())[:1]))
            o.sig.append((seed, glob, dup, on is not None, len(paths)))
            o.stats['runs in company'] += 1
        o.sample = {'sources': [os.path.relpath(s[0], d) for s in srcs], 'last_order': [os.path.relpath(x, d) for x in paths],
                    'last_options': opts, 'results_alone': {os.path.relpath(p, d): sum(len(r) for u in ref[p].values() for r in u.values()) for p in ref}}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return o


def diff(a, b):
    a, b = list(a), list(b)
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    return 'expected %d rows, got %d; first difference: %s instead of %s' % (
        len(a), len(b), str(b[i] if i < len(b) else 'nothing')[:300], str(a[i] if i < len(a) else 'nothing')[:300])


def plan(tier, seed):
    for i in range(100 if tier == 'quick' else 8000):
        yield {'seed': '%d-%d' % (seed, i)}


if __name__ == '__main__':
    check.main('C09', case, plan, setup=rc.setup,
               rule='runs of several sources together (order, repetition, global analysis, duplicates, rule subset) that were compared '
                    'source by source and rule by rule with the runs of each source alone')
