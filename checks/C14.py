"""C14: the empty-block rules against the reference models."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, models, rulecheck as rc

FOCUS = ['emptyish', 'null', 'if', 'ifelse', 'while', 'do', 'for', 'switch', 'try', 'attry', 'rangefor', 'forin', 'enumsw', 'sync', 'lambda', 'blockexpr']

if __name__ == '__main__':
    check.main('C14', rc.program_case(models.EMPTY, FOCUS),
               rc.plan(['cxx', 'objcxx', 'c', 'objc', 'c89', 'cxx'], 700, 30000),
               setup=rc.setup,
               rule='a generated program in which the reference models expect at least one report of a rule, and oclint made '
                    'exactly the expected reports; counted once per (program, rule)')
