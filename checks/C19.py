"""C19: the Objective-C rules against the reference models."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, models, rulecheck as rc

FOCUS = ['ocunit', 'ocunit', 'boxed', 'container', 'msg', 'attry']

if __name__ == '__main__':
    check.main('C19', rc.program_case(models.OBJC, FOCUS),
               rc.plan(['objc', 'objcxx'], 800, 40000),
               setup=rc.setup,
               rule='a generated program in which the reference models expect at least one report of a rule, and oclint made '
                    'exactly the expected reports; counted once per (program, rule)')
