"""C13: size rules on both sides of their thresholds, against the reference models."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, gen, models, rulecheck as rc

FOCUS = ['klass', 'ocunit', 'if', 'for', 'switch', 'chain', 'block', 'decl', 'lambda', 'blockexpr']


def confs(rng):
    c = {}
    for k, hi in (('CYCLOMATIC_COMPLEXITY', 9), ('NPATH_COMPLEXITY', 24), ('NCSS_METHOD', 16), ('NESTED_BLOCK_DEPTH', 5), ('LONG_METHOD', 20),
                  ('LONG_CLASS', 20), ('TOO_MANY_PARAMETERS', 5), ('TOO_MANY_FIELDS', 5), ('TOO_MANY_METHODS', 5), ('LONG_LINE', 120)):
        if rng.random() < 0.85:
            c[k] = rng.randint(0, hi)
    return c


def near(rng, t):
    return t + rng.choice([-1, 0, 0, 1, 1, 2])


def boundary(rng, lang):
    """units whose measure lies next to the documented default threshold"""
    cxx, objc = lang in ('cxx', 'objcxx'), lang in ('objc', 'objcxx')
    out = ['int ext(void); extern int g;']
    conf = {}
    fac = 1
    if rng.random() < 0.4:      # other thresholds of the same order
        conf = {'CYCLOMATIC_COMPLEXITY': rng.randint(1, 30), 'NCSS_METHOD': rng.randint(3, 60), 'NPATH_COMPLEXITY': rng.randint(1, 600),
                'NESTED_BLOCK_DEPTH': rng.randint(1, 9), 'LONG_METHOD': rng.randint(3, 80), 'LONG_LINE': rng.randint(40, 200),
                'LONG_CLASS': rng.randint(3, 300), 'TOO_MANY_FIELDS': rng.randint(1, 40), 'TOO_MANY_METHODS': rng.randint(1, 40),
                'TOO_MANY_PARAMETERS': rng.randint(1, 20)}
    th = lambda k, d: conf.get(k, d)
    i = [0]

    def fn(body, params='void'):
        i[0] += 1
        x = rng.random()
        if params == 'void' and cxx and x < 0.3:
            return 'struct M%d { int mem() %s };' % (i[0], body)
        if params == 'void' and objc and x < 0.5:
            return '@interface O%d\n@end\n@implementation O%d\n- (int)mem %s\n@end' % (i[0], i[0], body)
        return 'int f%d(%s) %s' % (i[0], params, body)

    def filler(n):
        return [rng.choice(['', '  /* c */', '  ext();', '  // c', '  ;']) for _ in range(n)]
    kinds = ['ccn', 'ncss', 'npath', 'depth', 'method', 'params', 'fields', 'methods', 'line', 'class']
    for k in rng.sample(kinds, rng.choice([2, 4, 6])):
        if k == 'ccn':
            out.append(fn('{\n%s  return 0;\n}' % ''.join('  if (g) ext();\n' for _ in range(max(near(rng, th('CYCLOMATIC_COMPLEXITY', 10)) - 1, 0)))))
        elif k == 'ncss':
            out.append(fn('{\n%s  return 0;\n}' % ''.join('  ext();\n' for _ in range(max(near(rng, th('NCSS_METHOD', 30)) - 2, 0)))))
        elif k == 'npath':
            n = max(near(rng, th('NPATH_COMPLEXITY', 200)), 2)
            out.append(fn('{\n  switch (g) {\n%s  default: ext(); }\n  return 0;\n}' % ''.join('  case %d: ext(); break;\n' % j for j in range(n - 1))))
        elif k == 'depth':
            n = max(near(rng, th('NESTED_BLOCK_DEPTH', 5)), 1)
            out.append(fn('{' + ''.join(rng.choice(['{', 'if (g) {', 'while (g) {']) for _ in range(n - 1)) + 'ext();' + '}' * n))
        elif k == 'method':
            n = max(near(rng, th('LONG_METHOD', 50)), 2)
            out.append(fn('{\n%s\n}' % '\n'.join(filler(n - 2)) if n > 2 else '{\n}'))
        elif k == 'params':
            n = max(near(rng, th('TOO_MANY_PARAMETERS', 10)), 1)
            if objc and rng.random() < 0.5:
                out.append('@interface P%d\n@end\n@implementation P%d\n- (void)%s { }\n@end' % (i[0], i[0], ' '.join('q%d:(int)a%d' % (j, j) for j in range(n))))
                i[0] += 1
            elif cxx and rng.random() < 0.5:
                out.append('struct Q%d { void mem(%s) {} Q%d(%s) {} };' % (i[0], ', '.join('int a%d' % j for j in range(n)), i[0],
                                                                          ', '.join('int a%d' % j for j in range(max(near(rng, n), 1)))))
                i[0] += 1
            else:
                out.append(fn('{ return 0; }', ', '.join('int a%d' % j for j in range(n)) + rng.choice(['', ', ...'])))
        elif k == 'fields':
            n = max(near(rng, th('TOO_MANY_FIELDS', 20)), 0)
            fs = '\n'.join('  int m%d;' % j for j in range(n))
            i[0] += 1
            if objc and rng.random() < 0.5:
                out.append('@interface F%d {\n%s\n}\n@end\n@implementation F%d\n@end' % (i[0], fs, i[0]))
            else:
                out.append('%s F%d {\n%s\n};' % (rng.choice(['struct', 'union'] + (['class'] if cxx else [])), i[0], fs or '  int:3;'))
        elif k == 'methods':
            n = max(near(rng, th('TOO_MANY_METHODS', 30)), 0)
            i[0] += 1
            if cxx:
                out.append('struct N%d {\n%s\n};' % (i[0], '\n'.join('  void m%d()%s' % (j, rng.choice([';', ' {}', ' const;'])) for j in range(n))))
            elif objc:
                out.append('@interface N%d\n@end\n@implementation N%d\n%s\n@end' % (i[0], i[0], '\n'.join('%s (void)m%d { }' % (rng.choice('-+'), j) for j in range(n))))
        elif k == 'line':
            for _ in range(3):
                n = near(rng, th('LONG_LINE', 100))
                x = rng.random()
                if x < 0.4:
                    out.append('//' + 'x' * max(n - 2, 0))
                elif x < 0.7:
                    s = 'int v%d_%d = 1;' % (len(out), n)
                    out.append(' ' * max(n - len(s), 0) + s)
                else:
                    s = '\tint v%d_%d = 1; //' % (len(out), n)
                    out.append(s + '\t' * max(n - len(s), 0))
        elif k == 'class':
            n = max(near(rng, th('LONG_CLASS', 1000)), 2)
            i[0] += 1
            if cxx and rng.random() < 0.7:
                out.append('struct L%d {\n%s\n};' % (i[0], '\n'.join(rng.choice(['', '// c', '  int a%d;' % j]) for j in range(n - 2)) if n > 2 else ''))
            elif objc:
                out.append('@interface L%d\n@end\n@implementation L%d\n%s\n@end' % (i[0], i[0], '\n'.join(rng.choice(['', '// c']) for j in range(n - 2))))
            else:
                out.append('struct L%d {\n%s\n};' % (i[0], '\n'.join(rng.choice(['', '// c', '  int a%d;' % j]) for j in range(n - 2))))
    rng.shuffle(out[1:])
    return '\n'.join(out) + rng.choice(['\n', '']), None, conf


if __name__ == '__main__':
    check.main('C13', rc.program_case(models.SIZE, FOCUS, confs, {'boundary': boundary}),
               rc.plan(['cxx', 'objcxx', 'c', 'objc', 'cxx', 'c89'], 500, 25000, [('boundary', ['cxx', 'c', 'objc', 'objcxx'], 1)]),
               setup=rc.setup,
               rule='a generated program in which the reference models expect at least one size report, and oclint made exactly '
                    'the expected reports with the expected values; counted once per (program, rule)')
