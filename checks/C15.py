"""C15: the control-flow rules against the reference models."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, models, rulecheck as rc

FOCUS = ['switch', 'enumsw', 'longif', 'redif', 'deadcode', 'goto', 'label', 'nestedfor', 'for', 'while', 'do', 'jump', 'attry', 'chain', 'ifelse', 'if', 'raise', 'throw', 'try', 'return', 'ifinit', 'rangefor', 'forin', 'emptyish']


def confs(rng):
    c = {}
    if rng.random() < 0.5:
        c['MINIMUM_CASES_IN_SWITCH'] = rng.choice([0, 1, 2, 3, 4, 5])
    if rng.random() < 0.5:
        c['MAXIMUM_IF_LENGTH'] = rng.choice([0, 1, 2, 3, 5, 10, 15, 20])
    return c


if __name__ == '__main__':
    check.main('C15', rc.program_case(models.CONTROL, FOCUS, confs),
               rc.plan(['cxx', 'objcxx', 'c', 'objc', 'c', 'objcxx', 'c89'], 800, 40000),
               setup=rc.setup,
               rule='a generated program in which the reference models expect at least one report of a rule, and oclint made '
                    'exactly the expected reports; counted once per (program, rule)')
