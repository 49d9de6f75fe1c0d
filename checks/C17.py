"""C17: the naming and unused-code rules against the reference models."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, models, rulecheck as rc

FOCUS = ['decl', 'redlocal', 'raii', 'for', 'try', 'forin', 'rangefor', 'lambda', 'blockexpr', 'nestedfor', 'ifinit', 'klass', 'ocunit']


def confs(rng):
    c = {}
    if rng.random() < 0.5:
        c['LONG_VARIABLE_NAME'] = rng.choice([0, 3, 4, 5, 19, 20, 21, 29, 30, 31, 39, 40])
    if rng.random() < 0.5:
        c['SHORT_VARIABLE_NAME'] = rng.choice([0, 1, 2, 3, 4, 5, 6, 20])
    if rng.random() < 0.3:
        c['RAII_CUSTOM_CLASSES'] = rng.choice(['Guard', 'Guard, Tmp', 'Tmp;Guard', 'Nothing', 'Tmp'])
    if rng.random() < 0.15:
        c['RAII_DEFAULT_CLASSES'] = rng.choice(['', 'Guard', 'std::lock_guard', 'Nothing'])
    return c


if __name__ == '__main__':
    check.main('C17', rc.program_case(models.NAMING, FOCUS, confs),
               rc.plan(['cxx', 'c', 'objc', 'objcxx', 'cxx', 'c89'], 800, 40000),
               setup=rc.setup,
               rule='a generated program in which the reference models expect at least one report of a rule, and oclint made '
                    'exactly the expected reports; counted once per (program, rule)')
