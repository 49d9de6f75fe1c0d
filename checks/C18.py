"""C18: the C++ class-design rules against the reference models."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, models, rulecheck as rc

FOCUS = ['klass', 'klass', 'klass']

if __name__ == '__main__':
    check.main('C18', rc.program_case(models.CXX, FOCUS),
               rc.plan(['cxx', 'cxx', 'objcxx', 'cxx'], 800, 40000),
               setup=rc.setup,
               rule='a generated program in which the reference models expect at least one report of a rule, and oclint made '
                    'exactly the expected reports; counted once per (program, rule)')
