"""C12: the metric values (in the violation messages, thresholds at their lowest) against the reference models."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, gen, models, rulecheck as rc

FOCUS = ['if', 'ifelse', 'chain', 'while', 'do', 'for', 'switch', 'ternary', 'logic', 'cond', 'stmtexpr', 'block', 'nestedfor', 'label',
         'try', 'attry', 'rangefor', 'forin', 'lambda', 'blockexpr', 'sync', 'pool', 'enumsw', 'ifinit', 'attr', 'goto', 'return']


def confs(rng):
    return {'CYCLOMATIC_COMPLEXITY': rng.choice([0, 0, -1]), 'NPATH_COMPLEXITY': rng.choice([0, 0, -1]),
            'NCSS_METHOD': rng.choice([0, 0, -1]), 'NESTED_BLOCK_DEPTH': rng.choice([-1, -1, 0])}


def big(rng, lang):
    """few functions with large values: products around and beyond the integer limits, long sums, deep nesting"""
    cxx, objc = lang in ('cxx', 'objcxx'), lang in ('objc', 'objcxx')
    out = ['int ext(void); extern int g; int ext2(int, int);\n']

    def cond(n):
        return ' && '.join(['g'] * max(n, 1)) if rng.random() < 0.5 else ' || '.join('g == %d' % i for i in range(max(n, 1)))

    def body(kind):
        n = rng.choice([3, 10, 20, 29, 30, 31, 32, 33, 40, 61, 62, 63, 64, 65, 66, 90])
        if kind == 'ifs':
            return ' '.join('if (%s) ext();%s' % (cond(rng.choice([1, 1, 1, 2, 3])), ' else g = 1;' if rng.random() < 0.3 else '') for _ in range(n))
        if kind == 'loops':
            return ' '.join(rng.choice(['while (%s) ext();', 'for (; %s; g++) ext();', 'do ext(); while (%s);']) % cond(1) for _ in range(n))
        if kind == 'switches':
            return ' '.join('switch (g) { %s }' % ' '.join('case %d: %s break;' % (j, rng.choice(['', 'if (g) ext();', 'ext();', 'g = g ? 1 : 2;']))
                                                            for j in range(rng.choice([2, 3, 7]))) for _ in range(min(n, 33)))
        if kind == 'cases':
            return 'switch (g) { %s default: ; }' % ' '.join('case %d: ext(); break;' % j for j in range(rng.choice([100, 255, 300])))
        if kind == 'deep':
            d = rng.choice([5, 20, 60, 120])
            return ''.join(rng.choice(['{', 'if (g) {', 'while (g) {', 'do {' if False else 'for (;g;) {']) for _ in range(d)) + 'ext();' + '}' * d
        if kind == 'chain':
            d = rng.choice([10, 40, 100])
            return ' else '.join('if (g == %d) { ext(); }' % i for i in range(d))
        if kind == 'terns':
            return ' '.join('g = g ? (g ? 1 : 2) : %s;' % rng.choice(['3', 'g && ext()', '(g ? 4 : 5)']) for _ in range(n))
        if kind == 'long':
            return 'ext(); ' * rng.choice([100, 500, 1200])
        if kind == 'mix':
            return ' '.join(body(rng.choice(['ifs', 'loops', 'chain'])) for _ in range(2))
        if kind == 'nest':
            s = 'ext();'
            for _ in range(rng.choice([4, 10, 20])):
                s = 'if (g) { %s %s } else { %s }' % (s, 'if (g) ext();' * rng.choice([0, 1, 2]), s if len(s) < 3000 else 'ext();')
            return s
    for i in range(rng.choice([2, 3, 4])):
        k = rng.choice(['ifs', 'ifs', 'loops', 'switches', 'cases', 'deep', 'chain', 'terns', 'long', 'mix', 'nest'])
        out.append('int f%d(void) { %s return %s; }\n' % (i, body(k), rng.choice(['0', 'g', 'g && ext()', 'g ? 1 : 0'])))
    if objc:
        out.append('@interface I0\n- (void) m;\n@end\n@implementation I0\n- (void) m { %s }\n@end\n' % body('ifs'))
    if cxx:
        out.append('struct S { void m() { %s } S(); ~S() { %s } };\nS::S() { %s }\n' % (body('ifs'), body('loops'), body('terns')))
    s = ''.join(out)
    return '\n'.join(x for x in s.replace('; ', ';\n').split('\n')), None


if __name__ == '__main__':
    check.main('C12', rc.program_case(models.METRIC, FOCUS, confs, {'big': big}),
               rc.plan(['c', 'cxx', 'objc', 'objcxx', 'cxx', 'c89'], 700, 35000, [('big', ['c', 'cxx', 'objc', 'objcxx', 'c89'], 5)]),
               setup=rc.setup,
               rule='a generated program with at least one function whose four metric values all equal the ones the reference '
                    'definitions give; counted once per (program, metric)')
